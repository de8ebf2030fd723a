"""Loops over symbolic ranges.

A loop `for x in it: body` with symbolic trip count n is replaced by exact
functions of the iteration number.  The loop-head value of every modified slot
(local variable, array contents, list contents) is a function H(k, idx) of the
iteration number; running the body once on the head state gives the transition
T(k, idx).  T is solved by one of

  unchanged      T = H                      closed = init
  assigned       T free of H                closed(k) = [k = 0] init + [k > 0] T(k-1)
  accumulation   T = H + E(k)               closed(k) = init + sum_{t<k} E(t)
  fold           T = H and/or E(k)          closed(k) = init and/or forall/exists t<k. E(t)
  pointwise      T = [idx = a(k)] W + H     closed(k, idx) = W at the k with a(k) = idx
  specification  a spec recurrence R supplied by the contract, proved equal to H by induction
  trace          H itself, with the axioms H(0) = init, H(k+1) = T(k)  (exact by definition)

so no loop is abstracted: the result is exact for every n.  Loop invariants
supplied by contracts are proved by induction over the trace.  Early exits
(break / return / raise) are handled by a case split on "no exit" and "first exit at x".
"""
import ast
import copy
from .terms import *
from . import terms as tm
from .values import *
from .prover import prove, simp
from . import libmodel as lib
from . import npmodel as npm


class Poison:
    """value of a variable not (known to be) assigned before the loop"""

    def __deepcopy__(self, memo):
        return self


class Retry(Exception):
    def __init__(self, why, new=()):
        self.why, self.new = why, new


def assigned_names(stmts):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if isinstance(n, ast.FunctionDef) and n.name not in out:
                out.append(n.name)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in stmts:
        walk(s)
    return out


def find_env(env, name):
    e = env
    if name in env.nonlocal_:
        e = env.parent
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
    return env


class Slot:
    def __init__(self, kind, obj, name):
        self.kind, self.obj, self.name = kind, obj, name
        self.H = None
        self.init = None
        self.T = None
        self.closed = None
        self.how = None

    @property
    def id(self):
        return (self.kind, id(self.obj), self.name)


def reachable_arrays(v, memo, out, seen, depth=0):
    if id(v) in seen or depth > 8:
        return
    seen.add(id(v))
    if isinstance(v, Arr):
        r = v.root()
        if id(r) not in out:
            out[id(r)] = r
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out[id(v)] = v
        for x in v:
            reachable_arrays(x, memo, out, seen, depth + 1)
    elif isinstance(v, SList):
        out[id(v)] = v
    elif isinstance(v, dict):
        out[id(v)] = v
        for x in v.values():
            reachable_arrays(x, memo, out, seen, depth + 1)
    elif isinstance(v, Inst):
        for x in v.attrs.values():
            reachable_arrays(x, memo, out, seen, depth + 1)
    elif isinstance(v, Env):
        for x in v.vars.values():
            reachable_arrays(x, memo, out, seen, depth + 1)
        if v.parent is not None:
            reachable_arrays(v.parent, memo, out, seen, depth + 1)
    elif isinstance(v, FuncV) and v.env is not None:
        reachable_arrays(v.env, memo, out, seen, depth + 1)
    elif isinstance(v, Bound):
        reachable_arrays(v.self_, memo, out, seen, depth + 1)


def run_for(I, s, env, itv):
    if isinstance(itv, npm.NdEnum):
        raise Unsupported('loop over ndenumerate of symbolic shape')
    it = I.iterate(itv)
    n = I.ctx.norm(it.length)
    bind = lambda e, k: I.assign(s.target, it.get(k), e)
    L = Loop(I, s, env, bind, n, s.body)
    names = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))])
    L.target_names = names
    L.run()
    if not L.exited:
        I.exec_block(s.orelse, env)


def run_while(I, s, env):
    raise Unsupported('while loop with a symbolic number of iterations')


class Loop:
    def __init__(self, I, node, env, bind, n, body):
        self.I, self.node, self.env, self.bind, self.n, self.body = I, node, env, bind, n, body
        self.start = ZERO
        self.slots = []
        self.exited = False
        self.base = tm.fresh_name('L')
        self.kname = self.base
        self.outer = [k for _, k in I.loopstack]
        self.types = {}
        self.where = I.where
        self.attempt = 0

    # ---------------------------------------------------------------- slots
    def app_H(self, slot, k, idx, sort):
        return app(slot.H, self.outer + [k] + list(idx), sort)

    def make_slots(self):
        I = self.I
        names = [x for x in assigned_names(self.body) if x not in self.target_names]
        self.slots = []
        for nme in names:
            e = find_env(self.env, nme)
            self.add_slot('var', e, nme)
        for nme in self.target_names:
            pass

    def add_slot(self, kind, obj, name):
        sl = Slot(kind, obj, name)
        sl.H = '%s.%s%d' % (self.base, name if isinstance(name, str) else kind, len(self.slots))
        if kind == 'var':
            sl.init = obj.vars.get(name, Poison())
        elif kind == 'arr':
            sl.init = (obj.shape, obj.dt, obj.fn)
        elif kind == 'list':
            if isinstance(obj, list):
                items = list(obj)
                sl.init = (num(len(items)), lambda t, c=items: I_index(self.I, c, t))
                sl.items = items
            else:
                sl.init = (obj.length, obj.get)
                sl.items = None
        elif kind == 'attr':
            sl.init = obj.attrs.get(name, Poison())
        self.slots.append(sl)
        return sl

    def head_value(self, sl, k):
        """loop-head value of a slot at iteration k, in terms of H"""
        if sl.kind in ('var', 'attr'):
            ini = self.types.get(sl.id, sl.init)
            return self.head_like(sl, ini, k)
        raise AssertionError

    def head_like(self, sl, ini, k, tag=''):
        if isinstance(ini, Poison) or ini is None or isinstance(ini, (Opaque, FuncV, Builtin, Inst, ExcV, TypeV)):
            return ini if ini is None else Poison() if isinstance(ini, Poison) else ini
        if is_scalar(ini) and not isinstance(ini, Arr):
            ty = ntype(ini)
            sort = {'int': 'I', 'npint': 'I', 'float': 'R', 'npfloat': 'R', 'bool': 'B', 'npbool': 'B', 'str': 'U'}[ty]
            t = app(sl.H + tag, self.outer + [k], sort)
            return SV(t, ty)
        if isinstance(ini, Arr):
            sort = {'f': 'R', 'i': 'I', 'b': 'B', 'u': 'U'}[ini.dt]
            h, o = sl.H + tag, self.outer
            return Arr(ini.shape, ini.dt, lambda idx: app(h, o + [k] + list(idx), sort))
        if isinstance(ini, tuple):
            return tuple(self.head_like(sl, x, k, tag + '_%d' % j) for j, x in enumerate(ini))
        if isinstance(ini, (list, SList, dict, set, lib.CSet)):
            return ini     # contents are tracked by their own slots
        raise Unsupported('loop variable of type %s' % type(ini).__name__)

    def list_elem_proto(self, sl):
        return self.types.get(sl.id)

    # ---------------------------------------------------------------- body runs
    def draws(self):
        return '%s~%d' % (self.base.replace('.', '~'), self.attempt)

    def run_body(self, k, heads, mode):
        """execute the body at iteration k on a copy of the state. returns paths
        [(cond, kind, {slot.id: value}, payload)]"""
        I = self.I
        real = {}
        reachable_arrays(self.env, None, real, set())
        for sl in self.slots:
            pass
        newly = []

        def thunk():
            # the draws of iteration k keep their names when the body is executed again, as long as
            # the loop state has the same representation
            I.loopstack[-1] = (self.draws(), k)
            I.cnt = 0
            memo = {}
            env2 = copy.deepcopy(self.env, memo)
            remap = {}
            ids = dict(real)
            for sl in self.slots:
                if sl.kind == 'var':
                    e2 = memo.get(id(sl.obj))
                    v = heads(sl)
                    if v is KEEP:
                        continue
                    if isinstance(v, Poison) and sl.name not in e2.vars:
                        continue
                    if isinstance(v, (list, SList, dict)):
                        continue
                    e2.vars[sl.name] = v
                elif sl.kind == 'attr':
                    o2 = memo.get(id(sl.obj))
                    o2.attrs[sl.name] = heads(sl)
                elif sl.kind == 'arr':
                    a2 = memo.get(id(sl.obj))
                    if a2 is None:
                        raise Unsupported('array slot not reachable')
                    a2.fn = heads(sl)
                elif sl.kind == 'list':
                    l2 = memo.get(id(sl.obj))
                    ln, get = heads(sl)
                    if isinstance(sl.obj, list):
                        s2 = SList(ln, get)
                        replace_refs(env2, l2, s2)
                        remap[id(sl.obj)] = s2
                        memo[id(sl.obj)] = s2
                    else:
                        l2.length, l2.get = ln, get
                        l2.memfn = l2.wit = None
            pre = {}
            for i, o in ids.items():
                c = memo.get(i)
                if isinstance(c, Arr):
                    pre[i] = (c, c.fn)
                elif isinstance(c, SList):
                    pre[i] = (c, c.length, c.get)
                elif isinstance(c, list):
                    pre[i] = (c, list(c))
                elif isinstance(c, dict):
                    pre[i] = (c, dict(c))
            try:
                self.bind(env2, k)
                I.exec_block(self.body, env2)
                kind, payload = 'next', None
            except ContinueEx:
                kind, payload = 'next', None
            except BreakEx:
                kind, payload = 'break', None
            except ReturnEx as r:
                kind, payload = 'return', r.value
            except PyRaise as r:
                kind, payload = 'raise', r.exc
            # collect
            res = {}
            for sl in self.slots:
                if sl.kind == 'var':
                    e2 = memo.get(id(sl.obj))
                    res[sl.id] = e2.vars.get(sl.name, Poison())
                elif sl.kind == 'attr':
                    res[sl.id] = memo[id(sl.obj)].attrs.get(sl.name)
                elif sl.kind == 'arr':
                    res[sl.id] = memo[id(sl.obj)].fn
                elif sl.kind == 'list':
                    c = memo[id(sl.obj)]
                    res[sl.id] = (c.length, c.get)
            # new modified objects?
            have = {id(sl.obj) for sl in self.slots if sl.kind in ('arr', 'list')}
            for i, st in pre.items():
                if i in have:
                    continue
                c = st[0]
                if isinstance(c, Arr) and c.fn is not st[1]:
                    newly.append(('arr', real[i]))
                elif isinstance(c, SList) and (c.length is not st[1] or c.get is not st[2]):
                    newly.append(('list', real[i]))
                elif isinstance(c, list) and (len(c) != len(st[1]) or any(x is not y for x, y in zip(c, st[1]))):
                    newly.append(('list', real[i]))
                elif isinstance(c, dict) and (list(c.keys()) != list(st[1].keys()) or any(c[x] is not st[1][x] for x in c)):
                    raise Unsupported('dictionary modified in a symbolic loop')
            return kind, res, payload

        quiet, cnt = I.quiet, I.cnt
        if mode == 'quiet':
            I.quiet += 1
        try:
            out = lib.subctx(I, k, self.n, thunk, extra=self.extra_facts(k))
        finally:
            I.quiet, I.cnt = quiet, cnt
        if newly:
            raise Retry('slots', newly)
        paths = []
        for c, o in out:
            if o[0] != 'ok':
                raise Unsupported('loop body outcome %s' % o[0])
            kind, res, payload = o[1]
            paths.append((c, kind, res, payload))
        return paths

    # ---------------------------------------------------------------- driver
    def run(self):
        I = self.I
        if I.ctx.entails(le(self.n, ZERO)):
            return
        self.make_slots()
        k = tm.fresh('k', 'I')
        self.guess_invariants()
        for attempt in range(12):
            self.attempt = attempt
            ctx0, n0 = I.ctx.copy(), len(I.assumed)
            try:
                self.heads_k = k
                paths = self.run_body(k, lambda sl: self.head(sl, k), 'quiet')
                self.check_types(paths)
                if self.check_invariants(paths, k):
                    break
                I.ctx = ctx0
                del I.assumed[n0:]
                I.sync()
            except Retry as r:
                if r.why == 'slots':
                    seen = {id(sl.obj) for sl in self.slots if sl.kind in ('arr', 'list')}
                    for kind, o in r.new:
                        if id(o) not in seen:
                            seen.add(id(o))
                            self.add_slot(kind, o, kind)
                elif r.why == 'peel':
                    return self.peel()
        else:
            raise Unsupported('loop state does not stabilise')
        exits = [p for p in paths if p[1] != 'next']
        nexts = [p for p in paths if p[1] == 'next']
        self.transitions(k, nexts)
        self.solve(k)
        E = FALSE
        for c, kind, res, payload in exits:
            E = disj(E, self.close(c, k))
        self.exitcond = (E, k)
        # final, recording run of the body for its obligations
        nob = len(I.obligs)
        if not I.quiet:
            self.final_run(k, E)
        if exits:
            rngk = conj(le(ZERO, k), lt(k, self.n))
            if nexts and prove(I.ctx, forall(k, implies(rngk, no(E)))):
                pass
            elif I.choose(2) == 1:
                return self.take_exit(k, E)
            else:
                I.ctx.assume(forall(k, implies(rngk, no(E))))
                I.expl.conds.append(forall(k, implies(rngk, no(E))))
                if not nexts:
                    # every iteration exits: so there is no iteration
                    I.ctx.assume(le(self.n, ZERO))
        self.finish()

    def head(self, sl, k):
        if sl.kind in ('var', 'attr'):
            return self.head_value(sl, k)
        if sl.kind == 'arr':
            shape, dt, fn = sl.init
            sort = {'f': 'R', 'i': 'I', 'b': 'B', 'u': 'U'}[dt]
            return lambda idx: app(sl.H, self.outer + [k] + list(idx), sort)
        if sl.kind == 'list':
            ln = app(sl.H + '.len', self.outer + [k], 'I')
            self.I.assume_len(ln) if False else None
            proto = self.types.get(sl.id)
            if proto is None and (sl.init[0].op != 'num' or sl.init[0] is not ZERO):
                proto = sl.init[1](ZERO)
                self.types[sl.id] = proto

            def get(t):
                if proto is None:
                    raise NeedProto()
                return self.elem_head(sl, proto, k, t)
            return ln, get

    def elem_head(self, sl, proto, k, t, tag=''):
        o = self.outer + [k, t]
        if is_scalar(proto) and not isinstance(proto, Arr):
            ty = ntype(proto)
            sort = {'int': 'I', 'npint': 'I', 'float': 'R', 'npfloat': 'R', 'bool': 'B', 'npbool': 'B', 'str': 'U'}[ty]
            return SV(app(sl.H + '.el' + tag, o, sort), ty)
        if isinstance(proto, tuple):
            return tuple(self.elem_head(sl, x, k, t, tag + '_%d' % j) for j, x in enumerate(proto))
        if isinstance(proto, Arr):
            sort = {'f': 'R', 'i': 'I', 'b': 'B', 'u': 'U'}[proto.dt]
            return Arr(proto.shape, proto.dt, lambda idx: app(sl.H + '.el' + tag, o + list(idx), sort))
        raise Unsupported('list elements of type %s' % type(proto).__name__)

    def check_types(self, paths):
        """loop-carried types must be stable"""
        for sl in self.slots:
            if sl.kind not in ('var', 'attr'):
                continue
            head = self.types.get(sl.id, sl.init)
            for c, kind, res, payload in paths:
                if kind != 'next':
                    continue
                v = res[sl.id]
                if type_compat(head, v):
                    continue
                if isinstance(head, Poison):
                    continue
                if is_scalar(head) and is_scalar(v) and not isinstance(head, Arr) and ntype(head) != 'str' and ntype(v) != 'str':
                    # numeric promotion
                    self.types[sl.id] = SV(ZERO, promote(ntype(head), ntype(v)))
                    raise Retry('type')
                # type change: try with an undefined head, else peel
                self.types[sl.id] = Poison()
                raise Retry('type')

    def peel(self):
        I = self.I
        if not I.decide(lt(ZERO, self.n)):
            return
        if self.start is not ZERO:
            raise Unsupported('repeated peeling')
        self.bind(self.env, ZERO)
        try:
            I.exec_block(self.body, self.env)
        except ContinueEx:
            pass
        except BreakEx:
            self.exited = True
            return
        b = self.bind
        L = Loop(I, self.node, self.env, lambda e, k: b(e, add(k, ONE)), sub(self.n, ONE), self.body)
        L.target_names = self.target_names
        L.start = ONE
        L.run()
        self.exited = L.exited

    # ---------------------------------------------------------------- transitions
    def transitions(self, k, nexts):
        I = self.I
        self.eqs = []     # scalar equations: (name H, idx vars, sort, init term, T term)
        self.rebuild = {}
        if not nexts:
            for sl in self.slots:
                sl.dead = True
            return
        pv = lambda f: lib.merge_paths(I, [(c, f(res)) for c, kind, res, p in nexts])
        for sl in self.slots:
            sl.dead = False
            if sl.kind in ('var', 'attr'):
                head = self.types.get(sl.id, sl.init)
                vals = [res[sl.id] for c, kind, res, p in nexts]
                if all(isinstance(v, Poison) for v in vals):
                    sl.dead = True
                    continue
                if isinstance(head, Poison):
                    if any(isinstance(v, Poison) for v in vals):
                        sl.dead = True
                        continue
                    try:
                        v = pv(lambda r: r[sl.id])
                    except Unsupported:
                        sl.dead = True
                        continue
                    sl.assigned = v
                    continue
                sl.assigned = None
                if any(v is not head and isinstance(v, (list, SList, dict, Inst)) for v in vals):
                    same = all(isinstance(v, (list, SList, dict, Inst)) for v in vals)
                    if isinstance(head, (list, SList, dict, Inst)):
                        # containers: the same object (tracked by content slots) or rebound
                        sl.container = True
                        sl.dead = True if not all(self.is_same_obj(sl, v) for v in vals) else False
                        if sl.dead and same:
                            sl.dead = True
                        continue
                v = pv(lambda r: r[sl.id])
                sl.Tval = v
                self.scalar_eqs(sl, head if not isinstance(sl.init, Poison) else sl.init, v, k, '')
            elif sl.kind == 'arr':
                shape, dt, fn = sl.init
                ix = [tm.fresh('x', 'I') for _ in shape]
                fs = [(c, res[sl.id]) for c, kind, res, p in nexts]
                t = fs[-1][1](tuple(ix))
                for c, f in reversed(fs[:-1]):
                    t = ite_t(c, f(tuple(ix)), t)
                sort = {'f': 'R', 'i': 'I', 'b': 'B', 'u': 'U'}[dt]
                self.eqs.append(Eqn(sl.H, ix, sort, fn(tuple(ix)), t,
                                    conj(*[conj(le(ZERO, x), lt(x, s)) for x, s in zip(ix, shape)])))
            elif sl.kind == 'list':
                self.list_eqs(sl, k, nexts)

    def is_same_obj(self, sl, v):
        return True

    def scalar_eqs(self, sl, head, v, k, tag):
        if is_scalar(v) and not isinstance(v, Arr):
            ini = self.types.get(sl.id, sl.init) if tag == '' else head
            base = sl.init if tag == '' else head
            hty = ntype(ini)
            sort = {'int': 'I', 'npint': 'I', 'float': 'R', 'npfloat': 'R', 'bool': 'B', 'npbool': 'B', 'str': 'U'}[hty]
            t0 = term(base)
            tv = term(v)
            if sort != 'B' and t0.sort == 'B':
                t0 = ivr(t0)
            if sort != 'B' and tv.sort == 'B':
                tv = ivr(tv)
            self.eqs.append(Eqn(sl.H + tag, [], sort, t0, tv, TRUE))
        elif isinstance(v, Arr):
            ix = [tm.fresh('x', 'I') for _ in v.shape]
            sort = {'f': 'R', 'i': 'I', 'b': 'B', 'u': 'U'}[head.dt]
            g = v.get(*ix)
            h0 = head.get(*ix) if tag else sl.init.get(*ix)
            if sort != 'B':
                g, h0 = num01(g), num01(h0)
            self.eqs.append(Eqn(sl.H + tag, ix, sort, h0, g,
                                conj(*[conj(le(ZERO, x), lt(x, s)) for x, s in zip(ix, v.shape)])))
        elif isinstance(v, tuple):
            for j, (h, x) in enumerate(zip(head, v)):
                self.scalar_eqs(sl, h, x, k, tag + '_%d' % j)
        elif v is None or v is head or isinstance(v, (Opaque, FuncV)):
            pass
        else:
            raise Unsupported('loop slot value %s' % type(v).__name__)

    def list_eqs(self, sl, k, nexts):
        I = self.I
        ln = app(sl.H + '.len', self.outer + [k], 'I')
        grow = []
        for c, kind, res, p in nexts:
            l2, g2 = res[sl.id]
            d = I.ctx.norm(sub(l2, ln))
            if d.op != 'num':
                raise Unsupported('list length change in a loop')
            grow.append((c, int(d.args[0]), g2))
        mx = max(g for _, g, _ in grow)
        if min(g for _, g, _ in grow) < 0:
            raise Unsupported('list shrinking in a loop')
        same_get = all(g2 is self.head_get.get(sl.id) for _, g, g2 in grow) if hasattr(self, 'head_get') else False
        if mx == 0:
            # item assignments: element function of (k, t)
            t = tm.fresh('x', 'I')
            vals = [(c, g2(t)) for c, g, g2 in grow]
            v = lib.merge_paths(I, vals)
            if not is_scalar(v):
                raise Unsupported('list item assignment of non scalars')
            proto = self.types[sl.id]
            sort = {'int': 'I', 'npint': 'I', 'float': 'R', 'npfloat': 'R', 'bool': 'B', 'str': 'U'}[ntype(proto)]
            sl.list_kind = 'items'
            self.eqs.append(Eqn(sl.H + '.len', [], 'I', sl.init[0], ln, TRUE))
            self.eqs.append(Eqn(sl.H + '.el', [t], sort, term(sl.init[1](t)), term(v), conj(le(ZERO, t), lt(t, sl.init[0]))))
            return
        if mx > 1:
            raise Unsupported('several appends per iteration')
        sl.list_kind = 'append'
        sl.grow = grow
        cond = disj(*[c if c is not TRUE else TRUE for c, g, _ in grow if g == 1])
        if all(g == 1 for _, g, _ in grow):
            cond = TRUE
        vals = [(c, g2(ln)) for c, g, g2 in grow if g == 1]
        sl.cond = cond
        sl.val = lib.merge_paths(I, vals)
        if self.types.get(sl.id) is None:
            self.types[sl.id] = sl.val
        self.eqs.append(Eqn(sl.H + '.len', [], 'I', sl.init[0], add(ln, ivr(cond)), TRUE))

    # ---------------------------------------------------------------- solving
    def solve(self, k):
        I = self.I
        self.solved = {}      # H name -> function(kterm, idx list) -> term
        pending = list(self.eqs)
        self.doms = {e.H: (e.ix, e.dom) for e in pending}
        self.k = k
        self.newp = []
        progress = True
        while progress and pending:
            progress = False
            for e in list(pending):
                e.T = self.close(e.T, k)
                r = self.try_solve(e, k, {x.H for x in pending})
                if r is not None:
                    self.solved[e.H] = r
                    pending.remove(e)
                    pending.extend(self.newp)
                    self.newp = []
                    progress = True
        self.list_solve(k, pending)
        # spec recurrences supplied by the contract
        for e in list(pending):
            e.T = self.close(e.T, k)
        for spec in list(I.specs):
            r = spec.match(self, pending, k) if hasattr(spec, 'match') else None
            if r:
                for h, f in r.items():
                    self.solved[h] = f
                pending = [e for e in pending if e.H not in r]
                for e in list(pending):
                    e.T = self.close(e.T, k)
                progress = True
                while progress and pending:
                    progress = False
                    for e in list(pending):
                        e.T = self.close(e.T, k)
                        q = self.try_solve(e, k, {x.H for x in pending})
                        if q is not None:
                            self.solved[e.H] = q
                            pending.remove(e)
                            pending.extend(self.newp)
                            self.newp = []
                            progress = True
        # traces
        rng = conj(le(ZERO, k), lt(k, self.n))
        if I.trace_debug:
            for e in pending:
                print('PENDING', e.H, [show(x) for x in e.ix], 'INIT', show(self.close(e.init, k)), 'T', show(self.close(e.T, k)), 'DOM', show(e.dom))
        for e in pending:
            e.T = self.close(e.T, k)
            h, sort = e.H, e.sort
            o = self.outer
            init = self.close(e.init, k)
            X = lambda kk, idx, h=h, sort=sort: app(h, o + [kk] + list(idx), sort)
            fr = [v for v in o if v.op == 'var']
            a0 = implies(e.dom, eq_any(X(ZERO, e.ix), init))
            a1 = implies(conj(rng, e.dom), eq_any(X(add(k, ONE), e.ix), e.T))
            self.trace_axiom(forall(e.ix, a0) if e.ix else a0)
            self.trace_axiom(forall([k] + e.ix, a1))
            e.how = 'trace'
            I.traces.append(e)
            I.uses_loop('trace')
        self.pending = pending
        self.restate()
        self.assume_invariants(pending)
        for inv in list(I.loop_invs):
            inv(self, pending, k)

    # ---- range invariants 0 <= x < d of integer loop variables
    def guess_invariants(self):
        I = self.I
        self.cands = []
        for sl in self.slots:
            ini = sl.init
            if sl.kind != 'var' or not isinstance(ini, SV) and not (isinstance(ini, int) and not isinstance(ini, bool)):
                continue
            t = term(ini)
            if t.sort != 'I' or not I.ctx.entails(le(ZERO, t)):
                continue
            H = lambda k, sl=sl: app(sl.H, self.outer + [k], 'I')
            for d in getattr(I, 'dim_terms', ()):
                if I.ctx.entails(lt(t, d)):
                    self.cands.append((sl, H, lambda x, d=d: conj(le(ZERO, x), lt(x, d))))

    def check_invariants(self, paths, k):
        """drop the candidates not preserved by an iteration; True if none was dropped"""
        I = self.I
        if not self.cands:
            return True
        rng = conj(le(ZERO, k), lt(k, self.n))
        keep = []
        for sl, H, c in self.cands:
            ok = True
            for cond, kind, res, payload in paths:
                if kind != 'next':
                    continue
                v = res[sl.id]
                if isinstance(v, Poison) or not (isinstance(v, (SV, int)) and not isinstance(v, bool)):
                    ok = False
                    break
                # the transition is total: with exits it must preserve the range on every state
                cx = I.ctx.ext(rng, *self.extra_facts(k)) if any(p[1] != 'next' for p in paths) else I.ctx.ext(rng, cond, *self.extra_facts(k))
                if term(v).sort != 'I' or not prove(cx, c(term(v))):
                    ok = False
                    break
            if ok:
                keep.append((sl, H, c))
        same = len(keep) == len(self.cands)
        self.cands = keep
        return same

    def extra_facts(self, k):
        return tuple(c(H(k)) for sl, H, c in self.cands)

    def assume_invariants(self, pending):
        hs = {e.H for e in pending}
        for sl, H, c in self.cands:
            if sl.H in hs:
                k = tm.fresh('k', 'I')
                self.trace_axiom(forall([k], implies(conj(le(ZERO, k), le(k, self.n)), c(H(k)))))

    def trace_axiom(self, f):
        I = self.I
        if f is TRUE:
            return
        I.ctx.assume(f)
        I.assumed.append((list(I.expl.conds), f))

    def restate(self):
        """facts about extrema over the loop state, in terms of the solved state (the solution holds for 0 <= k <= n)"""
        I = self.I
        live = {x for e in self.eqs for t in (e.T, self.close(e.T, self.k)) for x in func_names(t) if x.startswith(('maxa_', 'mina_'))}
        for f in list(I.ctx.facts):
            names = func_names(f)
            if not any(h in self.solved for h in names) or not live & names:
                continue
            vs, body = tm.open_binder(f) if f.op == 'forall' else ((), f)
            if any(x.op in ('forall', 'exists') for x in all_subterms(body)):
                continue
            used = []
            g = self.close(body, None, used)
            conds = [conj(le(ZERO, a[0]), le(a[0], subst(self.n, at)), subst(self.doms[h][1], {**at, **dict(zip(self.doms[h][0], a[1:]))})) for h, a, at in used if h in self.doms]
            if len(conds) == len(used):
                g = simp(I.ctx.ext(*conds), g)
                g = implies(conj(*conds), g)
                # an instance where a variable is only bounded
                lits = g.args if g.op == 'or' else (g,)
                gone = {x: ZERO for x in vs if not any(x in y.fv and any(z.op == 'app' for z in all_subterms(y)) for y in lits)}
                vs = [x for x in vs if x not in gone]
                g = subst(g, gone)
                self.trace_axiom(forall(vs, g) if vs else g)

    def close(self, t, k, used=None):
        """replace solved heads"""
        if not self.solved:
            return t
        no_ = len(self.outer)

        def f(x):
            if x.op == 'app':
                s = self.solved.get(x.args[0])
                if s is not None:
                    args = [go(a) for a in x.args[1 + no_:]]
                    at = {v: a for v, a in zip(self.outer, x.args[1:1 + no_]) if v is not a}
                    if used is not None:
                        used.append((x.args[0], args, at))
                    if at or used is not None:
                        # the state in another iteration of the loops around this one
                        if any(v.op != 'var' for v in at):
                            raise Unsupported('loop state of another outer iteration')
                        s = getattr(s, 'uniform', s)
                        hs = [tm.fresh('h', 'I') for _ in args]
                        return go(subst(s(hs[0], hs[1:]), {**at, **dict(zip(hs, args))}))
                    r = s(args[0], args[1:])
                    return go(r) if r.op != 'app' or r.args[0] != x.args[0] else r
            return None

        def go(x):
            return tm.map_atoms(x, f)
        return go(t)

    def deps(self, names):
        """function symbols, also those inside the definitions of named entities"""
        out, todo = set(), list(names)
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            todo += self.I.defdeps.get(x[x.rfind('_'):], ()) if '_' in x else ()
        return out

    def try_solve(self, e, k, unsolved):
        I = self.I
        H = app(e.H, self.outer + [k] + e.ix, e.sort)
        T, init = e.T, e.init
        rng = conj(le(ZERO, k), lt(k, self.n))
        c2 = I.ctx.ext(rng, e.dom)
        if T is not H:
            T = c2.norm(T)
            try:
                T2 = simp(c2, T)
                T = T2
            except ValueError:
                pass
        ixs = list(e.ix)
        if T is H:
            I.uses_loop('unchanged')
            return lambda kk, idx: subst(init, dict(zip(ixs, idx)))
        names = self.deps(func_names(T))
        own = e.H in names
        others = any(h in names for h in unsolved if h != e.H)
        if others:
            # may still be unaffected: wait
            return None
        if not own:
            I.uses_loop('assigned')

            def closed(kk, idx):
                m = dict(zip(ixs, idx))
                v = subst(T, {**m, k: sub(kk, ONE)})
                i0 = subst(init, m)
                z = eq(kk, ZERO)
                if v is i0:
                    return v
                if I.ctx.entails(lt(ZERO, kk)):
                    return v
                if kk is ZERO:
                    return i0
                return ite_t(z, i0, v)
            return closed
        if e.sort in ('R', 'I') and not has_special(T):
            D = sub(T, H)
            if not has_special(D) and e.H in self.deps(func_names(D)):
                D = guard_subst(D, ixs)
            if has_special(D):
                pass
            elif e.H not in self.deps(func_names(D)):
                for spec in list(I.specs):
                    r = spec.match(self, [e], k) if hasattr(spec, 'match') else None
                    if r:
                        return r[e.H]
                I.uses_loop('accumulation')

                def closed(kk, idx):
                    m = dict(zip(ixs, idx))
                    t = tm.fresh('t', 'I')
                    if kk is ZERO:
                        return subst(init, m)
                    if D.op == 'num' and (kk is k or I.ctx.entails(le(ZERO, kk))):
                        return add(subst(init, m), mul(D, kk))
                    return add(subst(init, m), ssum(t, ZERO, kk, subst(D, {**m, k: t})))
                return closed
        if e.sort == 'B' and not e.ix or e.sort == 'B':
            r = self.bool_fold(e, T, H, k, ixs, init)
            if r is not None:
                return r
        return self.pointwise(e, T, H, k, ixs, init)

    def bool_fold(self, e, T, H, k, ixs, init):
        I = self.I

        def setH(t, b):
            return tm.map_atoms(t, lambda x: (TRUE if b else FALSE) if x is H else None)
        t1, t0 = setH(T, True), setH(T, False)
        if e.H in func_names(t1) or e.H in func_names(t0):
            return None
        if t0 is FALSE:
            I.uses_loop('fold')

            def closed(kk, idx):
                m = dict(zip(ixs, idx))
                t = tm.fresh('t', 'I')
                return conj(subst(init, m), forall(t, implies(conj(le(ZERO, t), lt(t, kk)), subst(t1, {**m, k: t}))))
            return closed
        if t1 is TRUE:
            I.uses_loop('fold')

            def closed(kk, idx):
                m = dict(zip(ixs, idx))
                t = tm.fresh('t', 'I')
                return disj(subst(init, m), exists(t, conj(le(ZERO, t), lt(t, kk), subst(t0, {**m, k: t}))))
            return closed
        return None

    def pointwise(self, e, T, H, k, ixs, init):
        """writes guarded by an equality idx = a(k)"""
        I = self.I
        if not ixs:
            return None
        guards = set()
        for s in all_subterms(T):
            if s.op == 'eq0' and k in s.fv and any(x in s.fv for x in ixs):
                guards.add(s)
        for g in sorted(guards, key=lambda g: g.key):
            lc = lin_coeff(g.args[0], k)
            if lc is None:
                continue
            c, rest = lc
            if abs(c) != 1:
                continue
            kstar = mul(num(-1 / c), rest)
            setg = lambda t, b: tm.map_atoms(t, lambda x: (TRUE if b else FALSE) if x is g else None)
            T0 = setg(T, False)
            rng = conj(le(ZERO, k), lt(k, self.n))
            c2 = I.ctx.ext(rng, e.dom, no(g))
            T0 = c2.norm(T0)
            if T0 is not H:
                try:
                    T0 = simp(c2, T0)
                except ValueError:
                    continue
            if T0 is not H:
                continue
            W = setg(T, True)
            # own reads
            W = tm.map_atoms(W, lambda x: init if x is H else None)
            c3 = I.ctx.ext(rng, e.dom, g)
            bad = []
            nou = len(self.outer)

            def fix(x):
                if x.op == 'app' and x.args[0] == e.H:
                    idx = x.args[2 + nou:]
                    if x.args[1 + nou] is not k:
                        bad.append(x)
                        return None
                    ks = subst(kstar, dict(zip(ixs, idx)))
                    if c3.entails(no(conj(le(ZERO, ks), lt(ks, k)))):
                        return subst(init, dict(zip(ixs, idx)))
                    # never written: an iteration leaves the cell as it is
                    k2 = tm.fresh('k', 'I')
                    m2 = dict(zip(ixs, idx))
                    cell = subst(T, {**m2, k: k2})
                    if I.ctx.ext(le(ZERO, k2), lt(k2, self.n)).norm(cell) is subst(H, {**m2, k: k2}):
                        return subst(init, m2)
                    # same cell through the guard
                    if all(c3.norm(sub(p, q)) is ZERO for p, q in zip(idx, ixs)):
                        return init
                    bad.append(x)
                return None
            W0 = W
            W = tm.map_atoms(W, fix)
            if bad:
                r = self.table(e, W0, g, k, ixs, init)
                if r is not None:
                    return r
                continue
            I.uses_loop('pointwise')
            n = self.n

            def closed(kk, idx):
                m = dict(zip(ixs, idx))
                ks = subst(kstar, m)
                w = subst(W, {**m, k: ks})
                cnd = conj(le(ZERO, ks), lt(ks, kk))
                cnd = I.ctx.norm(cnd)
                i0 = subst(init, m)
                if I.ctx.entails(cnd):
                    return w
                return ite_t(cnd, w, i0)
            return closed
        return None

    def table(self, e, W, g, k, ixs, init):
        """row (or column) a(k) is written from row a(k-1): the rows form a recurrence of their own
        G(0) = initial row a(-1), G(k+1) = W[row a(k-1) -> G(k)]"""
        I = self.I
        pos = [i for i, x in enumerate(ixs) if x in g.args[0].fv]
        if len(pos) != 1:
            return None
        pr = pos[0]
        r = ixs[pr]
        lc = lin_coeff(g.args[0], r)
        if lc is None or abs(lc[0]) != 1:
            return None
        a = mul(num(-1 / lc[0]), lc[1])          # row written in iteration k
        lk = lin_coeff(a, k)
        if lk is None or abs(lk[0]) != 1 or any(x in a.fv for x in ixs):
            return None
        W = subst(W, {r: a})
        prev = subst(a, {k: sub(k, ONE)})
        nou = len(self.outer)
        G = e.H + '.row'
        bad = []
        rest = [x for i, x in enumerate(ixs) if i != pr]
        rng = conj(le(ZERO, k), lt(k, self.n))
        c2 = I.ctx.ext(rng)

        def fix(x):
            if x.op == 'app' and x.args[0] == e.H:
                idx = list(x.args[2 + nou:])
                if x.args[1 + nou] is not k:
                    bad.append(x)
                    return None
                d = c2.norm(sub(idx[pr], prev))
                if d is ZERO:
                    others = [tm.map_atoms(y, fix) for i, y in enumerate(idx) if i != pr]
                    return app(G, self.outer + [k] + others, e.sort)
                # a row written later than k-1 and different from the initial ones is unknown here
                ks = mul(num(1 / lk[0]), sub(idx[pr], lk[1]))
                if c2.entails(no(conj(le(ZERO, ks), lt(ks, self.n)))):
                    return subst(init, dict(zip(ixs, idx)))
                if c2.entails(le(k, ks)):
                    return subst(init, dict(zip(ixs, idx)))
                bad.append(x)
            return None
        W = tm.map_atoms(W, fix)
        if bad:
            return None
        dom = conj(*[c for c in (e.dom.args if e.dom.op == 'and' else (e.dom,)) if r not in c.fv])
        row0 = subst(init, {r: subst(a, {k: num(-1)})})
        e2 = Eqn(G, rest, e.sort, row0, W, dom)
        self.newp.append(e2)
        I.uses_loop('table')
        n = self.n

        def closed(kk, idx, first=ZERO):
            ks = mul(num(1 / lk[0]), sub(idx[pr], lk[1]))
            w = app(G, self.outer + [add(ks, ONE)] + [y for i, y in enumerate(idx) if i != pr], e.sort)
            cnd = I.ctx.norm(conj(le(first, ks), lt(ks, kk)))
            i0 = subst(init, dict(zip(ixs, idx)))
            if I.ctx.entails(cnd):
                return w
            return ite_t(cnd, w, i0)
        closed.uniform = lambda kk, idx: closed(kk, idx, num(-1))     # G(0) is the initial row
        return closed

    def list_solve(self, k, pending):
        I = self.I
        for sl in self.slots:
            if sl.kind != 'list' or getattr(sl, 'list_kind', '') != 'append' or sl.dead:
                continue
            if sl.cond is not TRUE:
                sl.cond = self.close(sl.cond, k)
                sl.enum = None
                continue
            # element t >= len0 is the value appended in iteration t - len0
            self.list_trace(sl, k, pending)

    def list_trace(self, sl, k, pending):
        I = self.I
        len0, get0 = sl.init
        name = sl.H + '.el'
        no_ = len(self.outer)
        proto = sl.val
        val = self.close_val(sl.val, k)
        names = val_names(val)
        if not any(x.startswith(sl.H + '.el') for x in names):
            # direct: no self reads

            def mk(tag):
                def closed(kk, idx):
                    t = idx[0]
                    v = pick_tag(val, tag)
                    cell = v.get(*idx[1:]) if isinstance(v, Arr) else term(v)
                    w = subst(cell, {k: sub(t, len0)})
                    if len0 is ZERO or I.ctx.entails(le(len0, t)):
                        return w
                    g = pick_tag(get0(t), tag)
                    g = g.get(*idx[1:]) if isinstance(g, Arr) else term(g)
                    return ite_t(lt(t, len0), g, w)
                return closed
            for tag in tags_of(proto):
                self.solved[name + tag] = mk(tag)
            return
        # self-referential: trace function L(t), L(t) = init or value of iteration t-len0
        Lname = sl.H + '.L'
        o = self.outer
        for tag in tags_of(proto):
            v0 = pick_tag(proto, tag)
            if isinstance(v0, Arr):
                raise Unsupported('self-referential list of arrays')
            sort = term(v0).sort
            self.solved[name + tag] = (lambda kk, idx, tag=tag, sort=sort: app(Lname + tag, o + [idx[0]], sort))
        val = self.close_val(sl.val, k)
        rng = conj(le(ZERO, k), lt(k, self.n))
        t = tm.fresh('t', 'I')
        for tag in tags_of(proto):
            v = term(pick_tag(val, tag))
            sort = v.sort
            self.trace_axiom(forall(k, implies(rng, eq_any(app(Lname + tag, o + [add(len0, k)], sort), v))))
            if len0.op == 'num':
                for j in range(int(len0.args[0])):
                    self.trace_axiom(eq_any(app(Lname + tag, o + [num(j)], sort), term(pick_tag(get0(num(j)), tag))))
            else:
                self.trace_axiom(forall(t, implies(conj(le(ZERO, t), lt(t, len0)),
                                                   eq_any(app(Lname + tag, o + [t], sort), term(pick_tag(get0(t), tag))))))
        I.uses_loop('trace')

    def close_val(self, v, k):
        if isinstance(v, SV):
            return mkval(self.close(v.t, k), v.ty)
        if isinstance(v, tuple):
            return tuple(self.close_val(x, k) for x in v)
        if isinstance(v, Arr):
            f = v.snap()
            return npm.arr(tuple(self.close(s, k) for s in v.shape), v.dt, lambda idx: self.close(f(idx), k))
        if isinstance(v, SList):
            g = v.get
            s = SList(self.close(v.length, k), lambda t: self.close_val(g(t), k), elty=v.elty)
            return s
        return v

    # ---------------------------------------------------------------- state at iteration k
    def state_at(self, kk):
        """functions giving the loop-head state at iteration kk"""
        def heads(sl):
            if getattr(sl, 'dead', False) and sl.kind in ('var', 'attr'):
                return KEEP if not isinstance(sl.init, Poison) and getattr(sl, 'container', False) else \
                    (self.types.get(sl.id, sl.init) if isinstance(self.types.get(sl.id, sl.init), Poison) else KEEP)
            if sl.kind in ('var', 'attr') and getattr(sl, 'assigned', None) is not None:
                return self.assigned_at(sl, kk)
            return self.close_head(sl, kk)
        return heads

    def assigned_at(self, sl, kk):
        """variable (re)assigned in every iteration and never read before"""
        I = self.I
        if I.ctx.entails(le(kk, ZERO)):
            return sl.init
        v = lib.subst_value(self.close_val(sl.assigned, self.k), {self.k: sub(kk, ONE)})
        if I.ctx.entails(lt(ZERO, kk)):
            return v
        if isinstance(sl.init, Poison):
            return v    # only meaningful when at least one iteration ran
        try:
            return lib.merge2(I, eq(kk, ZERO), sl.init, v)
        except Unsupported:
            return Undecided(sl.init, v, kk)

    def close_head(self, sl, kk):
        h = self.head(sl, kk)
        if sl.kind == 'arr':
            return lambda idx: self.close(h(idx), kk)
        if sl.kind == 'list':
            ln, get = h
            kind = getattr(sl, 'list_kind', None)
            ln2 = self.close(ln, kk)
            if kind == 'append' and sl.cond is not TRUE:
                return self.cond_list(sl, kk, ln2)
            return ln2, (lambda t: self.close_val(get(t), kk))
        return self.close_val(h, kk)

    def cond_list(self, sl, kk, ln):
        """conditional append: elements are the values at the iterations where the condition held"""
        I = self.I
        k = self.k
        len0, get0 = sl.init
        c = sl.cond
        val = self.close_val(sl.val, k)
        if any(x.startswith(sl.H) for x in val_names(val) | func_names(c)):
            raise Unsupported('self-referential conditional append')
        en = npm.enumerate_pred(I, kk, lambda x: subst(c, {k: x}))
        t0 = tm.fresh('t', 'I')
        cnt = I.ctx.norm(en.shape[0])
        total = add(len0, cnt)

        def get(t):
            if len0 is ZERO or I.ctx.entails(le(len0, t)):
                return lib.subst_value(val, {k: en.get(sub(t, len0))})
            if I.ctx.entails(lt(t, len0)):
                return get0(t)
            return lib.merge2(I, lt(t, len0), get0(t), lib.subst_value(val, {k: en.get(sub(t, len0))}))
        sl.enum_info = (en, val, k)
        return total, get

    def final_run(self, k, E):
        I = self.I
        ob0 = len(I.obligs)
        saved = self.extra_facts
        paths = self.run_body(k, self.state_at(k), 'record')

    def take_exit(self, k, E):
        I = self.I
        x = I.fresh('exit', 'I')
        rng = conj(le(ZERO, x), lt(x, self.n))
        t = tm.fresh('t', 'I')
        before = forall(t, implies(conj(le(ZERO, t), lt(t, x)), no(subst(E, {k: t}))))
        Ex = subst(E, {k: x})
        if any(q.op == 'inv' for q in all_subterms(Ex)):
            Ex = simp(I.ctx.ext(rng), Ex)
        for c in (rng, before, Ex):
            I.ctx.assume(c)
            I.expl.conds.append(c)
        self.set_state(x)
        self.exited = True
        self.bind(self.env, x)
        q, cnt = I.quiet, I.cnt
        I.quiet += 1      # obligations of the body were recorded for every iteration already
        I.loopstack.append((self.draws(), x))
        I.cnt = 0
        try:
            I.exec_block(self.body, self.env)
        except ContinueEx:
            raise PruneEx()
        except BreakEx:
            return
        finally:
            I.quiet, I.cnt = q, cnt
            I.loopstack.pop()
        raise PruneEx()

    def finish(self):
        I = self.I
        self.set_state(self.n)
        if I.ctx.entails(lt(ZERO, self.n)):
            self.bind(self.env, sub(self.n, ONE))

    def set_state(self, kk):
        I = self.I
        heads = self.state_at(kk)
        vals = [(sl, heads(sl)) for sl in self.slots]
        for sl, v in vals:
            if v is KEEP:
                continue
            if sl.kind == 'var':
                if isinstance(v, (list, dict)) or v is sl.init:
                    continue
                if isinstance(v, SList) and isinstance(sl.init, (list, SList)):
                    continue
                if isinstance(v, Undecided):
                    v = v.a if I.decide(eq(v.k, ZERO)) else v.b
                if isinstance(v, Poison):
                    sl.obj.vars.pop(sl.name, None)
                    continue
                sl.obj.vars[sl.name] = v
            elif sl.kind == 'attr':
                sl.obj.attrs[sl.name] = v
            elif sl.kind == 'arr':
                I.mutating(sl.obj)
                sl.obj.fn = npm.memo(v)
            elif sl.kind == 'list':
                ln, get = v
                if isinstance(sl.obj, list):
                    s = SList(I.ctx.norm(ln), get)
                    if getattr(sl, 'enum_info', None) and sl.init[0] is ZERO:
                        en, val, k = sl.enum_info
                        if isinstance(val, SV) and val.t is k:
                            s.memfn, s.wit, s.enum = en.memfn, getattr(en, 'wit', None), en.enum
                        s.from_enum = (en, k, val)
                    proto = self.types.get(sl.id)
                    s.elty = ntype(proto) if proto is not None and is_scalar(proto) else None
                    replace_refs(self.env, sl.obj, s)
                else:
                    I.mutating(sl.obj)
                    sl.obj.length, sl.obj.get = I.ctx.norm(ln), get
                    sl.obj.memfn = sl.obj.wit = None


class Undecided:
    def __init__(self, a, b, k):
        self.a, self.b, self.k = a, b, k


class _Keep:
    pass


KEEP = _Keep()


class NeedProto(Unsupported):
    def __init__(self):
        Unsupported.__init__(self, 'read from a list of unknown element type')


class PruneEx(Exception):
    """infeasible alternative"""


class Eqn:
    def __init__(self, H, ix, sort, init, T, dom):
        self.H, self.ix, self.sort, self.init, self.T, self.dom = H, ix, sort, init, T, dom
        self.how = None


def guard_subst(t, ixs):
    """[x = a] f(x) = [x = a] f(a) for the index variables x"""
    out = ZERO
    for c, m in poly_items(t):
        mono = list(m)
        for x in ixs:
            for a, e in mono:
                if a.op != 'ivr' or a.args[0].op != 'eq0' or x not in a.fv:
                    continue
                q = lin_coeff(a.args[0].args[0], x)
                if q is None or q[0] not in (1, -1):
                    continue
                v = mul(num(-q[0]), q[1])
                mono = [(b, n) if b is a else (subst(b, {x: v}), n) for b, n in mono]
                break
        r = num(c)
        for a, e in mono:
            r = mul(r, powi(a, e))
        out = add(out, r)
    return out


def I_index(I, c, t):
    return I.index_concrete(c, t)


def eq_any(a, b):
    if a.sort == 'B':
        return iff(a, b)
    if has_special(b) or has_special(a):
        if b.op == 'case':
            cs = []
            rest = TRUE
            for c, v in b.args:
                if c is None:
                    c = TRUE
                cs.append(implies(conj(rest, c), eq(a, v)) if not has_special(v) else TRUE)
                rest = conj(rest, no(c))
            return conj(*cs)
        if has_special(b):
            return TRUE
    return eq(a, b)


def ite_t(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == 'B':
        return disj(conj(c, a), conj(no(c), b))
    if a.sort == 'U':
        return lib.ite_u(c, a, b)
    if has_special(a) or has_special(b):
        return case(c, a, b)
    return ite(c, a, b)


def promote(a, b):
    if a in FLT_T or b in FLT_T:
        return 'float'
    return 'int' if a != b else a


def type_compat(h, v):
    if isinstance(h, Poison):
        return True
    if is_scalar(h) and is_scalar(v) and not isinstance(h, Arr) and not isinstance(v, Arr):
        a, b = ntype(h), ntype(v)
        if a == b:
            return True
        if a in FLT_T and b in FLT_T + INT_T:
            return True
        if a in INT_T and b in INT_T:
            return True
        return {a, b} <= {'bool', 'npbool'}
    if isinstance(h, Arr) and isinstance(v, Arr):
        return len(h.shape) == len(v.shape) and all(x is y for x, y in zip(h.shape, v.shape)) and (h.dt == v.dt)
    if isinstance(h, tuple) and isinstance(v, tuple):
        return len(h) == len(v) and all(type_compat(x, y) for x, y in zip(h, v))
    if isinstance(h, (list, SList)) and isinstance(v, (list, SList)):
        return True
    if h is None and v is None:
        return True
    return type(h) == type(v) and not isinstance(h, (SV, Arr))


def replace_refs(env, old, new):
    """rebind every reference to list `old` in the frame (and enclosing frames) to `new`"""
    e = env
    while e is not None:
        for k, v in list(e.vars.items()):
            if v is old:
                e.vars[k] = new
            elif isinstance(v, tuple) and any(x is old for x in v):
                e.vars[k] = tuple(new if x is old else x for x in v)
            elif isinstance(v, list) and any(x is old for x in v):
                for j, x in enumerate(v):
                    if x is old:
                        v[j] = new
            elif isinstance(v, dict) and any(x is old for x in v.values()):
                for kk in list(v):
                    if v[kk] is old:
                        v[kk] = new
        e = e.parent


def tags_of(v, tag=''):
    if isinstance(v, tuple):
        out = []
        for j, x in enumerate(v):
            out += tags_of(x, tag + '_%d' % j)
        return out
    return [tag]


def pick_tag(v, tag):
    if not tag:
        return v
    for j in tag.split('_')[1:]:
        v = v[int(j)]
    return v


def val_names(v):
    if isinstance(v, SV):
        return func_names(v.t)
    if isinstance(v, tuple):
        r = set()
        for x in v:
            r |= set(val_names(x))
        return r
    if isinstance(v, Arr):
        ix = [tm.fresh('x', 'I') for _ in v.shape]
        r = set(func_names(v.get(*ix)))
        for s in v.shape:
            r |= set(func_names(s))
        return r
    if isinstance(v, SList):
        return set(func_names(v.length)) | set(val_names(v.get(tm.fresh('x', 'I'))))
    return set()


# ------------------------------------------------------------ contract-supplied recurrences

class Rec:
    """spec recurrence R(k, idx): R(0) = init, R(k+1) = step(R, k, idx); `match` tries to identify a
    loop equation with it by induction"""

    def __init__(self, I, name, nidx, init, step, params=(), dom=None, sort='R', shift=0, total=None, nonneg=False):
        self.I, self.name, self.nidx, self.sort = I, name, nidx, sort
        self.init, self.step, self.dom = init, step, dom
        self.params = list(params)
        self.offsets = []       # further values o for which a loop may compute R(k + o)
        k = tm.fresh('k', 'I')
        ix = [tm.fresh('x', 'I') for _ in range(nidx)]
        d = dom(*ix) if dom else TRUE
        R = self
        fr = [p for p in self.params]
        if nidx:
            I.assume_def(forall(fr + ix, implies(d, eq_any(R(ZERO, *ix), init(*ix)))))
        else:
            I.assume_def(eq_any(R(ZERO), init()))
        I.assume_def(forall(fr + [k] + ix, implies(conj(le(ZERO, k), d), eq_any(R(add(k, ONE), *ix), step(R, k, *ix)))))
        if total is not None:
            self.sum_lemma(*total)
        if nonneg:
            self.lemma('nonneg', lambda k, *ix: le(ZERO, self(k, *ix)))
        I.specs.append(self)

    def sum_lemma(self, n, value):
        """sum over the (only) index is `value` at every step: induction, then usable as a rewriting rule"""
        I = self.I
        x, k = tm.fresh('x', 'I'), tm.fresh('k', 'I')
        R, name, np_ = self, self.name, len(self.params)
        r0 = prove(I.ctx, eq(ssum(x, ZERO, n, self.init(x)), value))
        I.record_lemma(f'{name}: the sum is {show(value)} at step 0', r0)
        kk = tm.fresh('c', 'I')

        def rule_for(kfix):
            def rule(ctx, v, los, his, rest):
                if len(rest) == 1 and rest[0][1] == 1 and rest[0][0].op == 'app' and rest[0][0].args[0] == name and rest[0][0].args[-1] is v and los == [ZERO] and len(his) == 1:
                    kq = rest[0][0].args[1 + np_]
                    if v in kq.fv or ctx.norm(sub(his[0], sub(n, ONE))) is not ZERO:
                        return None
                    if kfix is not None and kq is not kfix:
                        return None
                    if kfix is None and not ctx.entails(le(ZERO, kq)):
                        return None
                    return value
                return None
            return rule
        c2 = I.ctx.ext(le(ZERO, kk))
        c2.rules = c2.rules.copy()
        c2.rules.sums.append(rule_for(kk))
        r1 = prove(c2, eq(ssum(x, ZERO, n, self.step(self, kk, x)), value))
        I.record_lemma(f'{name}: the sum is {show(value)} at step k+1', r1)
        if r0 and r1:
            I.ctx.rules.sums.append(rule_for(None))

    def lemma(self, label, prop):
        """prop(k, *ix) for every k >= 0 and index in the domain, by induction on k"""
        I = self.I
        kk = tm.fresh('c', 'I')
        ix = [tm.fresh('x', 'I') for _ in range(self.nidx)]
        d = self.dom(*ix) if self.dom else TRUE
        q = lambda k: forall(ix, implies(d, prop(k, *ix))) if ix else prop(k)
        r0 = prove(I.ctx, q(ZERO))
        I.record_lemma(f'{self.name}: {label} at step 0', r0)
        c2 = I.ctx.ext(le(ZERO, kk), q(kk))
        r1 = prove(c2, q(add(kk, ONE)))
        I.record_lemma(f'{self.name}: {label} at step k+1', r1)
        if r0 and r1:
            I.assume_def(forall([kk] + ix, implies(conj(le(ZERO, kk), d), prop(kk, *ix))))

    unfold = False

    def __call__(self, k, *ix):
        k = lift(k)
        if self.unfold and k.op == 'num' and 0 <= k.args[0] <= 3:
            # by definition
            ix = [lift(x) for x in ix]
            return self.init(*ix) if k is ZERO else self.step(self, sub(k, ONE), *ix)
        return app(self.name, self.params + [lift(k)] + [lift(x) for x in ix], self.sort)

    def match(self, L, pending, k):
        I = L.I
        for e in pending:
            if e.sort != self.sort or len(e.ix) != self.nidx:
                continue
            names = func_names(e.T)
            if any(x.H in names for x in pending if x is not e):
                continue
            nou = len(L.outer)
            for off in [num(o) for o in (0, 1, 2)] + self.offsets:
                # H(k) = R(k + off)
                i0 = L.close(e.init, k)
                Roff = self(off, *e.ix)
                d = e.dom
                ctx = I.ctx
                if not prove(ctx, forall(e.ix, implies(d, eq_any(i0, Roff))) if e.ix else eq_any(i0, Roff)):
                    continue

                def rep(x):
                    if x.op == 'app' and x.args[0] == e.H:
                        a = x.args[1 + nou:]
                        return self(add(a[0], off), *[tm.map_atoms(y, rep) for y in a[1:]])
                    return None
                T = tm.map_atoms(e.T, rep)
                rng = conj(le(ZERO, k), lt(k, L.n))
                cT = ctx.ext(rng, d)
                if has_special(T):
                    try:
                        T = simp(cT, cT.norm(T))
                    except ValueError:
                        pass
                goal = implies(conj(rng, d), eq_any(T, self(add(k, add(off, ONE)), *e.ix)))
                if I.trace_debug:
                    print('MATCH', self.name, show(off), show(goal)[:1500])
                if prove(ctx, forall([k] + e.ix, goal)):
                    I.uses_loop('specification')
                    return {e.H: (lambda kk, idx: self(add(kk, off), *idx))}
        return None
