"""Symbolic interpreter for the Python subset used by the repository.

It runs the functions' current source (ast of the files in /repo/pydtmc) on
symbolic inputs of unbounded size.  Branches on symbolic conditions fork the
run; loops of symbolic length are replaced by proved closed forms or traces
(see loops.py); calls into the package are inlined unless a contract is
registered for the callee; calls into numpy/scipy/networkx/... use the
contracts in npmodel.py / libmodel.py.
"""
import ast
import copy
import os
import sys
import time
from .terms import *
from . import terms as tm
from .prover import *
from . import prover as pv
from .values import *

sys.setrecursionlimit(20000)


class PList(list):
    owner = None


class PDict(dict):
    owner = None
    default = None


class Oblig:
    def __init__(self, name, ok, by, where, goal, why='', kind='post', path=None, model=None):
        self.name, self.ok, self.by, self.where = name, ok, by, where
        self.goal, self.why, self.kind = goal, why, kind
        self.path = path
        self.model = model


class Explorer:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.conds = []
        self.pending = []


REPO = os.environ.get('PVC_REPO', '/repo')


def pending_head(x):
    """the state of a loop whose body is being analysed"""
    return x.startswith('L!') and not x.endswith('.row')


def narrow(ctx, c):
    """the facts about the functions of c only"""
    names = func_names(c)
    return Ctx([f for f in ctx.facts if func_names(f) <= names], ctx.rules)


class Interp:
    UNROLL = 12
    MAXUNROLL = 200
    WHILE_BOUND = 60
    while_symbolic = False
    trace_debug = bool(os.environ.get('PVC_TRACE'))

    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}
        self.ctx = Ctx()
        self.expl = Explorer([])
        self.loopstack = []
        self.obligs = []
        self.quiet = 0
        self.assumed = []         # facts added by library contracts (for generalisation)
        self.defdeps = {}         # suffix of defined names -> function symbols of their definitions
        self.used_contracts = {}  # library/contract name -> count
        self.draw_log = []       # generators draws were taken from
        self.while_invs, self.active_invs = [], []      # (names, invariant, variant) of while loops
        self.contracts = {}       # qualified name -> handler(interp, args, kwargs) or None
        self.functions = {}       # functions executed: qualname -> count
        self.specs = []           # spec functions for loop templates
        self.templates = []       # extra invariants templates
        self.callstack = []
        self.loopinfo = []
        self.cnt = 0
        self.where = ''
        self.max_paths = 400
        self.on_call = []
        from . import npmodel, libmodel
        self.np = npmodel
        self.lib = libmodel
        self.globals_override = {}
        self.frame_mode = False
        self.cache_properties = {}
        self.traces, self.loop_invs, self.loop_kinds = [], [], {}
        self.defs, self.defset, self.scopes, self.enums = [], set(), [], {}

    # ------------------------------------------------------------- facts
    def assume(self, c):
        """fact guaranteed by a library contract or by an already proved obligation"""
        if c is TRUE:
            return
        self.ctx.assume(c)
        self.assumed.append((list(self.expl.conds), c))

    def uses_loop(self, kind):
        self.loop_kinds[kind] = self.loop_kinds.get(kind, 0) + 1

    def sync(self):
        """definitional facts are valid on every path"""
        c = self.ctx
        while c.ndefs < len(self.defs):
            f = self.defs[c.ndefs]
            c.ndefs += 1
            c.assume(f)

    def assume_def(self, f):
        """closed fact defining a fresh symbol (holds on every path)"""
        if f is TRUE or f in self.defset:
            self.sync()
            return
        self.defset.add(f)
        self.defs.append(f)
        self.sync()

    def push_scope(self, facts):
        self.scopes.append((self.ctx, len(self.assumed)))
        self.ctx = self.ctx.ext(*facts)

    def pop_scope(self):
        self.ctx, n = self.scopes.pop()
        self.sync()

    def register_enum(self, ename, cnt, n, x, cond, free):
        """sum over t<cnt of f(e(t)) = sum over x<n with cond(x) of f(x)"""
        rules = self.ctx.rules
        if ename in self.enums:
            return
        self.enums[ename] = (cnt, n, x, cond, free)
        nfree = len(free)

        def rule(ctx, v, los, his, rest):
            # every occurrence of v in rest must be inside e(..free.., v)
            hit = [None]

            def f(t):
                if t.op == 'app' and t.args[0] == ename and len(t.args) == nfree + 2 and t.args[-1] is v:
                    a = t.args[1:-1]
                    if any(v in y.fv for y in a):
                        return None
                    if hit[0] is None:
                        hit[0] = a
                    elif any(p is not q for p, q in zip(hit[0], a)):
                        return None
                    return y0
                return None
            y0 = tm.fresh('y', 'I')
            new = [(replace_app(a, f), e) for a, e in rest]
            if hit[0] is None:
                return None
            if any(v in a.fv for a, _ in new):
                # the position of the element
                pos = app('enp_' + ename[4:], list(hit[0]) + [y0], 'I')
                new = [(subst(a, {v: pos}), e) for a, e in new]
            m = dict(zip(free, hit[0]))
            if len(los) != 1 or len(his) != 1:
                return None
            c = subst(cnt, m)
            if not (los[0] is ZERO and ctx.norm(sub(his[0], sub(c, ONE))) is ZERO):
                return None
            nn = subst(n, m)
            cc = subst(cond, m)
            cc = subst(cc, {x: y0})
            body = mul(ivr(cc), ONE)
            for a, e in new:
                body = mul(body, powi(a, e))
            return ssum(y0, ZERO, nn, body)
        rules.sums.append(rule)

    def assume_divmod(self, m):
        x = tm.fresh('x', 'I')
        q, r = app('fdiv', [x, m], 'I'), app('mod', [x, m], 'I')
        self.assume(forall(x, implies(lt(ZERO, m), conj(eq(x, add(mul(m, q), r)), le(ZERO, r), lt(r, m)))))

    def oblige_overflow(self, a, k):
        self.uses('int64 overflow of matrix_power not modelled')

    def oblige(self, name, cond, kind='safety', node=None):
        """prove cond under the current path; record; continue assuming it"""
        if cond is TRUE:
            if not self.quiet:
                self.record(Oblig(name, True, 'norm', self.where, cond, kind=kind))
            return True
        if self.quiet:
            self.ctx.assume(cond)
            return True
        r = prove(self.ctx, cond)
        self.record(Oblig(name, bool(r), r.by, self.where, cond, r.why, kind,
                          list(self.expl.conds), r.model))
        self.assume(cond)
        return bool(r)

    def record_lemma(self, name, r):
        if not self.quiet:
            self.record(Oblig('lemma ' + name, bool(r), r.by, '', TRUE, r.why, 'lemma', list(self.expl.conds), r.model))

    def record(self, o):
        self.obligs.append(o)

    def uses(self, name):
        if not self.quiet:
            self.used_contracts[name] = self.used_contracts.get(name, 0) + 1

    def freshname(self, prefix):
        if self.loopstack:
            self.cnt += 1
            return '%s@%s.%d.%s' % (prefix, self.loopstack[-1][0], self.cnt, self.where.replace(':', '~').replace('.', '~').replace('_', ''))
        return tm.fresh_name(prefix)

    def fresh(self, prefix, sort):
        """fresh scalar (a function of the enclosing symbolic loop indices)"""
        n = self.freshname(prefix)
        if self.loopstack:
            return app(n, [k for _, k in self.loopstack], sort)
        return var(n, sort)

    def fresh_fn(self, prefix, sort):
        n = self.freshname(prefix)
        ks = [k for _, k in self.loopstack]
        return lambda *idx: app(n, ks + list(idx), sort)

    # ------------------------------------------------------------- branching
    def decide(self, c, hint=None):
        """truth value of a condition on this path; forks when undetermined"""
        if isinstance(c, bool):
            return c
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        c = self.ctx.norm(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = self.known(c)
        if r is not None:
            return r
        e = self.expl
        i = len(e.taken)
        if i < len(e.prefix):
            b = e.prefix[i]
        else:
            b = True
            e.pending.append(e.taken + [False])
        e.taken.append(b)
        cc = c if b else no(c)
        e.conds.append(cc)
        self.ctx.assume(cc)
        return b

    def known(self, c):
        if len(self.ctx.facts) > 50:
            # a few facts are often enough, and many make a refutation slow
            q = narrow(self.ctx, c)
            for b, x in ((True, c), (False, no(c))):
                if not any(y.op in ('forall', 'exists') for y in all_subterms(x)) and prove(q, x):
                    return b
            if c.op == 'forall' and q.entails(no(tm.subst(c.args[1], {x: ZERO for x in c.args[0] if x.sort == 'I'}))):
                return False
            if any(pending_head(x) for x in func_names(c)):
                return None
        if self.ctx.entails(c):
            return True
        if c.op == 'forall':
            if prove(self.ctx, c):
                return True
            # refuted by one of its instances?
            return None
        if c.op == 'exists':
            if prove(self.ctx, no(c)):
                return False
            return None
        if c.op in ('and', 'or'):
            if any(x.op in ('forall', 'exists') for x in c.args):
                if prove(self.ctx, c):
                    return True
                if prove(self.ctx, no(c)):
                    return False
                return None
        if self.ctx.entails(no(c)):
            return False
        if any(s.op in ('sum', 'ivr', 'app', 'case', 'inv') for s in subterms(c)):
            s = simp(self.ctx, c)
            if s is TRUE:
                return True
            if s is FALSE:
                return False
            if prove(self.ctx, s):
                return True
            if prove(self.ctx, no(s)):
                return False
        return None

    def choose(self, n, label=''):
        """nondeterministic choice among n alternatives (explored separately)"""
        e = self.expl
        i = len(e.taken)
        if i < len(e.prefix):
            b = e.prefix[i]
        else:
            b = 0
            for j in range(1, n):
                e.pending.append(e.taken + [j])
        e.taken.append(b)
        return b

    def explore(self, thunk):
        """run thunk() once per feasible path. thunk must rebuild its own state.
        yields (explorer, result, exc)"""
        from . import symloops
        results = []
        stack = [[]]
        saved = (self.ctx, self.expl)
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > self.max_paths:
                raise Unsupported('too many paths')
            self.ctx = saved[0].copy()
            self.sync()
            self.expl = Explorer(prefix)
            try:
                out = ('ok', thunk())
            except ReturnEx as r:
                out = ('return', r.value)
            except PyRaise as r:
                out = ('raise', r.exc)
            except BreakEx:
                out = ('break', None)
            except ContinueEx:
                out = ('ok', None)
            except symloops.PruneEx:
                out = None
            if out is not None and not self.ctx.inconsistent():
                results.append((self.expl, out, self.ctx))
            stack.extend(self.expl.pending)
        self.ctx, self.expl = saved
        self.sync()
        return results

    # ------------------------------------------------------------- modules
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            path = os.path.join(self.repo, 'pydtmc', name + '.py')
            with open(path) as f:
                src = f.read()
            m = Module(self, name, ast.parse(src))
            self.modules[name] = m
            m.load()
        return m

    def getfunc(self, module, name):
        return self.module(module).lookup(name)

    def getclass(self, module, name):
        return self.module(module).lookup(name)

    # ------------------------------------------------------------- calls
    def call(self, f, args, kwargs=None, node=None):
        kwargs = kwargs or {}
        if isinstance(f, Builtin):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kwargs, node)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, TypeV):
            return self.lib.call_type(self, f.name, args, kwargs)
        if isinstance(f, ExcType):
            return ExcV(f.name, tuple(args))
        if isinstance(f, (self.lib.NodeView, self.lib.EdgeView)):
            return self.lib.call_view(self, f, list(args), dict(kwargs))
        if callable(f) and not isinstance(f, type):
            return f(self, list(args), dict(kwargs))
        raise Unsupported('call of %r' % (f,))

    def qual(self, f):
        return '%s.%s%s' % (f.module.name, (f.cls.name + '.') if f.cls else '', f.name)

    def call_func(self, f, args, kwargs):
        q = self.qual(f)
        h = self.contracts.get(q)
        if h is not None and q not in self.callstack_names():
            self.used_contracts['contract:' + q] = self.used_contracts.get('contract:' + q, 0) + 1
            return h(self, list(args), dict(kwargs))
        if len(self.callstack) > 60:
            raise Unsupported('call depth')
        if not self.quiet:
            self.functions[q] = self.functions.get(q, 0) + 1
        node = f.node.n
        env = Env(f.env, f.module, f)
        self.bind_args(f, node.args, env, list(args), dict(kwargs))
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, env)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            raise Unsupported('generator function')
        self.callstack.append((q, node.lineno))
        try:
            self.exec_block(node.body, env)
        except ReturnEx as r:
            return r.value
        finally:
            self.callstack.pop()
        return None

    def callstack_names(self):
        return [q for q, _ in self.callstack]

    def bind_args(self, f, a, env, args, kwargs):
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(params):
            if a.vararg is None:
                raise PyRaise(ExcV('TypeError', ('too many arguments',)))
            vals[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(params, args):
            vals[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise(ExcV('TypeError', ('unexpected keyword',)))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PDict(extra)
        defaults = a.defaults
        denv = Env(f.env, f.module, f)
        for n, d in zip(params[len(params) - len(defaults):], defaults):
            if n not in vals:
                vals[n] = self.eval(d, denv)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in vals and d is not None:
                vals[n] = self.eval(d, denv)
        for n in params + kwonly:
            if n not in vals:
                raise PyRaise(ExcV('TypeError', ('missing argument %s' % n,)))
        env.vars.update(vals)

    def instantiate(self, cls, args, kwargs):
        h = self.contracts.get('class:' + cls.name)
        if h is not None:
            return h(self, list(args), dict(kwargs))
        if cls.is_exception():
            return ExcV(cls.name, tuple(args))
        o = Inst(cls)
        init = cls.lookup('__init__')
        if init is not None:
            self.call_func(init, [o] + list(args), kwargs)
        return o

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        if self.callstack:
            self.where = '%s:%d' % (self.callstack[-1][0], getattr(s, 'lineno', 0))
        pv.check_deadline()
        return m(s, env)

    def x_Pass(self, s, env):
        pass

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Return(self, s, env):
        raise ReturnEx(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise BreakEx()

    def x_Continue(self, s, env):
        raise ContinueEx()

    def x_FunctionDef(self, s, env):
        f = FuncV(s.name, Node(s), env, env.module)
        env.vars[s.name] = f

    def x_Nonlocal(self, s, env):
        env.nonlocal_ = env.nonlocal_ | set(s.names)

    def x_Global(self, s, env):
        raise Unsupported('global statement')

    def x_Import(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name] = ModV(a.name)

    def x_ImportFrom(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name] = self.import_name(env.module, s, a.name)

    def import_name(self, module, s, name):
        if s.level > 0:
            return self.module(s.module).lookup(name)
        return self.lib.module_attr(self, s.module, name)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def x_Assert(self, s, env):
        c = self.truth(self.eval(s.test, env))
        if not self.decide(c):
            raise PyRaise(ExcV('AssertionError'))

    def x_Raise(self, s, env):
        if s.exc is None:
            raise PyRaise(env.vars.get('$exc', ExcV('Exception')))
        e = self.eval(s.exc, env)
        if isinstance(e, ExcType):
            e = ExcV(e.name)
        if isinstance(e, ClassV):
            e = ExcV(e.name)
        if isinstance(e, ExcV):
            raise PyRaise(e)
        if isinstance(e, Opaque):
            raise PyRaise(ExcV(e.what))
        raise Unsupported('raise %r' % (e,))

    def x_Try(self, s, env):
        try:
            self.exec_block(s.body, env)
        except PyRaise as r:
            for h in s.handlers:
                if self.exc_match(r.exc, h.type, env):
                    if h.name:
                        env.vars[h.name] = r.exc
                    old = env.vars.get('$exc')
                    env.vars['$exc'] = r.exc
                    try:
                        self.exec_block(h.body, env)
                    finally:
                        if old is None:
                            env.vars.pop('$exc', None)
                        else:
                            env.vars['$exc'] = old
                    break
            else:
                if s.finalbody:
                    self.exec_block(s.finalbody, env)
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.orelse, env)
        self.exec_block(s.finalbody, env)

    def exc_match(self, exc, typ, env):
        if typ is None:
            return True
        t = self.eval(typ, env)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            n = x.name if isinstance(x, (ExcType, ClassV, TypeV)) else None
            if n in ('Exception', 'BaseException') or n == exc.tname:
                return True
            if exc_subclass(exc.tname, n):
                return True
        return False

    def x_With(self, s, env):
        held = []
        for item in s.items:
            v = self.eval(item.context_expr, env)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
            if isinstance(v, LockV):
                held.append(v)
                v.depth += 1
        try:
            self.exec_block(s.body, env)
        finally:
            for v in held:
                v.depth -= 1

    def x_If(self, s, env):
        c = self.truth(self.eval(s.test, env))
        if self.decide(c):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_While(self, s, env):
        from .loops import run_while
        run_while(self, s, env)

    def x_For(self, s, env):
        from .loops import run_for
        run_for(self, s, env)

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
            v = self.eval(s.value, env)
            self.store(t.id, self.augop(op, cur, v), env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            cur = self.getitem(o, i)
            v = self.eval(s.value, env)
            if isinstance(cur, Arr):
                # numpy: view/copy updated in place, then stored back
                r = self.binop(op, cur, v)
                r = self.np.cast_like(self, r, cur)
            elif isinstance(cur, (PList, SList)):
                r = self.augop(op, cur, v)
            else:
                r = self.binop(op, cur, v)
            self.setitem(o, i, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr, env)
            v = self.eval(s.value, env)
            self.setattr(o, t.attr, self.augop(op, cur, v), env)
        else:
            raise Unsupported('augassign')

    def augop(self, op, cur, v):
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            self.np.inplace(self, cur, r)
            return cur
        if isinstance(cur, PList) and op == 'Add':
            self.mutating(cur)
            if isinstance(v, (PList, tuple)):
                cur.extend(v)
                return cur
            raise Unsupported('list +=')
        if isinstance(cur, SList) and op == 'Add':
            raise Unsupported('slist +=')
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v, env)
        else:
            raise Unsupported('assign target')

    def unpack(self, v, n):
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise PyRaise(ExcV('ValueError', ('unpack',)))
            return list(v)
        if isinstance(v, Arr):
            return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, SList):
            c = eq(v.length, num(n))
            if not self.decide(c):
                raise PyRaise(ExcV('ValueError', ('unpack',)))
            return [v.get(num(i)) for i in range(n)]
        raise Unsupported('unpack %r' % (v,))

    # ------------------------------------------------------------- names
    def load(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        if env.module is not None:
            r = env.module.lookup(name, None)
            if r is not None or env.module.has(name):
                return r
        return self.lib.builtin(self, name)

    def store(self, name, v, env):
        if name in env.nonlocal_:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    # ------------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        try:
            return PList(self.elts(e.elts, env))
        except StarOnly as s:
            it = s.it
            r = SList(it.length, it.get)
            x = it.get(tm.var('~probe', 'I')) if it.length is not ZERO else None
            r.elty = x.ty if isinstance(x, SV) else None
            return r

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                r = self.concrete_items(v)
                if r is None:
                    if len(es) == 1:
                        it = self.iterate(v)
                        raise StarOnly(it)
                    raise Unsupported('star of symbolic list')
                out += r
            else:
                out.append(self.eval(x, env))
        return out

    def e_Set(self, e, env):
        return self.lib.make_set(self, [self.eval(x, env) for x in e.elts])

    def e_Dict(self, e, env):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            d[self.key(self.eval(k, env))] = self.eval(v, env)
        return d

    def key(self, k):
        if isinstance(k, SV):
            return k
        return k

    def e_Lambda(self, e, env):
        return FuncV('<lambda>', Node(e), env, env.module)

    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        if self.decide(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        vals = e.values
        cur = self.eval(vals[0], env)
        for nx in vals[1:]:
            t = self.truth(cur)
            if isinstance(t, T) and not isinstance(t, bool):
                kn = self.known(t)
                if kn is None and ntype(cur) in ('bool', 'npbool'):
                    # evaluate the rest under the assumption; merge if it is a pure boolean
                    saved = self.ctx
                    self.ctx = saved.ext(t if isand else no(t))
                    npend = len(self.expl.pending)
                    ntaken = len(self.expl.taken)
                    nob = len(self.obligs)
                    try:
                        rest = self.eval(nx, env)
                        pure = len(self.expl.taken) == ntaken
                        kind = ntype(rest)
                    except PyRaise:
                        pure, kind = False, None
                    finally:
                        self.ctx = saved
                    if pure and kind in ('bool', 'npbool'):
                        rt = term(rest)
                        cur = mkval(conj(t, rt) if isand else disj(t, rt), 'bool')
                        continue
                    # roll back and fork
                    del self.expl.pending[npend:]
                    del self.expl.taken[ntaken:]
                    del self.obligs[nob:]
                    b = self.decide(t)
                else:
                    b = kn if kn is not None else self.decide(t)
            else:
                b = bool(t)
            if b != isand:
                return cur if not isinstance(cur, SV) else (b if cur.ty == 'bool' else cur)
            cur = self.eval(nx, env)
        return cur

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            t = self.truth(v)
            if isinstance(t, bool):
                return not t
            return mkval(no(t), 'bool')
        if isinstance(v, Arr):
            return self.np.unary(self, op, v)
        if op == 'USub':
            if not isinstance(v, SV):
                return -v
            return mkval(neg(v.t), v.ty)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, SV) and v.ty in ('npbool', 'bool'):
                return SV(no(v.t), v.ty)
            if isinstance(v, bool):
                return ~v
        raise Unsupported('unary %s' % op)

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op == 'MatMult':
                return self.np.matmul(self, a, b)
            return self.np.binary(self, op, a, b)
        if isinstance(a, (PList, SList)) or isinstance(b, (PList, SList)) or isinstance(a, tuple):
            return self.lib.list_binop(self, op, a, b)
        if isinstance(a, SSet) or isinstance(b, SSet):
            return self.lib.set_binop(self, op, a, b)
        if op == 'BitAnd' and isinstance(a, self.lib.LazySet) and isinstance(b, self.lib.LazySet):
            return self.lib.lazy_inter(self, a, b)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {'Sub': a - b, 'BitOr': a | b, 'BitAnd': a & b}[op]
        ta, tb = ntype(a), ntype(b)
        if ta == 'str' or tb == 'str' or isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, str) and isinstance(b, str) and op == 'Add':
                return a + b
            if isinstance(a, str) and isinstance(b, int) and op == 'Mult':
                return a * b
            if op == 'Add' and ta == 'str' and tb == 'str':
                return SV(app('str_cat', [term(a), term(b)], 'U'), 'str')
            return Opaque('str')
        if ta is None or tb is None:
            if op in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
                if a is None or b is None:
                    raise PyRaise(ExcV('TypeError', ('operand',)))
            raise Unsupported('binop %s %r %r' % (op, a, b))
        return self.scalar_binop(op, a, b, ta, tb)

    def scalar_binop(self, op, a, b, ta, tb):
        if op in ('BitAnd', 'BitOr') and ta in ('bool', 'npbool') and tb in ('bool', 'npbool'):
            x, y = term(a), term(b)
            return mkval(conj(x, y) if op == 'BitAnd' else disj(x, y), 'bool')
        if not isinstance(a, (SV, Arr)) and not isinstance(b, (SV, Arr)):
            # both concrete: python semantics, floats read as exact rationals
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return self.conc_int(op, a, b)
        x, y = num01(term(a)), num01(term(b))
        isf = ta in FLT_T or tb in FLT_T or op == 'Div'
        np_ = ta.startswith('np') or tb.startswith('np')
        ty = ('npfloat' if np_ else 'float') if isf else ('npint' if np_ else 'int')
        if op == 'Add':
            return self.fl(add(x, y), ty)
        if op == 'Sub':
            return self.fl(sub(x, y), ty)
        if op == 'Mult':
            return self.fl(mul(x, y), ty)
        if op == 'Div':
            if not np_:
                z = eq(y, ZERO)
                if self.decide(z):
                    raise PyRaise(ExcV('ZeroDivisionError'))
                return self.fl(mul(x, inv(y)), ty)
            return self.fl(self.np.divide_terms(self, x, y), ty)
        if op == 'Pow':
            return self.fl(self.np.power_terms(self, x, y), ty)
        if op in ('Mod', 'FloorDiv'):
            return self.intdiv(op, x, y, ty)
        if op in ('LShift',):
            return self.fl(mul(x, app('pow2', [y], 'I')), ty)
        raise Unsupported('scalar %s' % op)

    def fl(self, t, ty):
        if ty == 'float' and t.op == 'num':
            f = float(t.args[0])
            if tm._fl(f) == t.args[0]:
                return f
        return mkval(t, ty)

    def conc_int(self, op, a, b):
        try:
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op == 'Div':
                return self.fl(num(Fraction(a) / Fraction(b)), 'float')
            if op == 'FloorDiv':
                return a // b
            if op == 'Mod':
                return a % b
            if op == 'Pow':
                return a ** b
            if op == 'LShift':
                return a << b
            if op == 'BitAnd':
                return a & b
            if op == 'BitOr':
                return a | b
        except ZeroDivisionError:
            raise PyRaise(ExcV('ZeroDivisionError'))
        raise Unsupported('int op ' + op)

    def intdiv(self, op, x, y, ty):
        if y.op == 'num' and y.args[0].denominator == 1 and x.sort == 'I' and y.args[0] > 0:
            q = self.fresh('div', 'I')
            r = sub(x, mul(q, y))
            self.assume(conj(le(ZERO, r), lt(r, y)))
            return mkval(q if op == 'FloorDiv' else r, ty)
        f = 'mod' if op == 'Mod' else 'fdiv'
        t = app(f, [x, y], x.sort)
        return mkval(t, ty)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env)
            r = self.compare(type(op).__name__, left, right)
            if isinstance(r, Arr):
                if len(e.ops) == 1:
                    return r
                raise Unsupported('chained array comparison')
            t = self.truth(r)
            if res is None:
                res = t
            else:
                res = conj(lift(res), lift(t)) if not (isinstance(res, bool) and isinstance(t, bool)) else (res and t)
            left = right
        if isinstance(res, T):
            return mkval(res, 'bool')
        return res

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            t = self.contains(b, a)
            if isinstance(t, bool):
                return t if op == 'In' else not t
            return mkval(t if op == 'In' else no(t), 'bool')
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return op == 'NotEq'
            if (isinstance(a, Arr) and a.shape) or (isinstance(b, Arr) and b.shape):
                return self.np.compare(self, op, a, b)
        ta, tb = ntype(a), ntype(b)
        if ta is None or tb is None:
            return self.lib.compare(self, op, a, b)
        if not isinstance(a, SV) and not isinstance(b, SV) and not isinstance(a, Arr) and not isinstance(b, Arr):
            if not (isinstance(a, str) != isinstance(b, str)):
                return {'Eq': a == b, 'NotEq': a != b, 'Lt': lambda: a < b}.get(op) if op in ('Eq', 'NotEq') else \
                    {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
        if (ta == 'str') != (tb == 'str'):
            if op == 'Eq':
                return False
            if op == 'NotEq':
                return True
            raise PyRaise(ExcV('TypeError', ('compare',)))
        x, y = term(a), term(b)
        if ta == 'str':
            if op == 'Eq':
                return mkval(eq(x, y), 'bool')
            if op == 'NotEq':
                return mkval(ne(x, y), 'bool')
            return mkval(app('str_lt', [x, y], 'B'), 'bool') if op == 'Lt' else Opaque('strcmp')
        x, y = num01(x), num01(y)
        return mkval(self.cmp_terms(op, x, y), 'bool')

    def cmp_terms(self, op, x, y):
        if op == 'Eq':
            return eq(x, y)
        if op == 'NotEq':
            return no(eq(x, y))
        if op == 'Lt':
            return lt_s(x, y)
        if op == 'LtE':
            return le(x, y)
        if op == 'Gt':
            return lt_s(y, x)
        if op == 'GtE':
            return le(y, x)
        raise Unsupported(op)

    def is_(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, (bool, str, TypeV, ClassV)) or isinstance(b, (bool, str, TypeV, ClassV)):
            return a is b or (type(a) == type(b) and a == b)
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return a.name == b.name
        return a is b

    def contains(self, c, x):
        return self.lib.contains(self, c, x)

    def truth(self, v):
        """python truth value as bool or Bool term"""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, SV):
            if v.t.sort == 'B':
                return v.t
            if v.ty == 'str':
                return ne(v.t, strlit(''))
            return ne(v.t, ZERO)
        if isinstance(v, (tuple, list, dict, set, frozenset)):
            return len(v) > 0
        if isinstance(v, SList):
            return lt(ZERO, v.length)
        if isinstance(v, Arr):
            if not v.shape:
                t = v.get()
                return t if t.sort == 'B' else ne(t, ZERO)
            if all(s is ONE for s in v.shape):
                t = v.get(*[ZERO] * len(v.shape))
                return t if t.sort == 'B' else ne(t, ZERO)
            raise Unsupported('truth of array')
        if isinstance(v, T):
            return v
        if isinstance(v, (FuncV, Builtin, Inst, ClassV, ModV, Bound, TypeV)):
            return True
        if isinstance(v, SSet):
            if v.src is not None:
                return lt(ZERO, v.src.length)
            k = fresh('e', 'I')
            return exists(k, v.mem(k))
        raise Unsupported('truth of %r' % (v,))

    def e_JoinedStr(self, e, env):
        parts = []
        conc = True
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, env)
                spec = p.format_spec.values[0].value if p.format_spec and p.format_spec.values else ''
                if isinstance(v, (int, str)) and not isinstance(v, bool):
                    parts.append(format(v, spec))
                elif isinstance(v, SV) and (v.ty in INT_T or v.ty == 'str'):
                    parts.append(v)
                    conc = False
                else:
                    return Opaque('str')
        if conc:
            return ''.join(parts)
        parts = [x for x in parts if x != '']
        syms = [x for x in parts if isinstance(x, SV)]
        if len(syms) == 1 and syms[0].ty in INT_T:
            i = parts.index(syms[0])
            pre, suf = ''.join(parts[:i]), ''.join(parts[i + 1:])
            self.uses('decimal formatting of integers is injective')
            return SV(app('~fmt_d[%s|%s]' % (pre, suf), [syms[0].t], 'U'), 'str')
        if len(parts) == 1:
            return parts[0]
        r = None
        for x in parts:
            t = term(x) if not (isinstance(x, SV) and x.ty in INT_T) else app('~fmt_d[|]', [x.t], 'U')
            r = t if r is None else app('str_cat', [r, t], 'U')
        return SV(r, 'str')

    def e_FormattedValue(self, e, env):
        return Opaque('str')

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_Slice(self, e, env):
        f = lambda x: self.eval(x, env) if x is not None else None
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval(e.slice, env))

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr, env)

    def e_Call(self, e, env):
        f = e.func
        # super().__init__ etc. are not used by the package
        fn = self.eval(f, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                r = self.concrete_items(v)
                if r is None:
                    if isinstance(fn, Builtin) and fn.name in ('zip', 'chain'):
                        args.append(StarArg(v))
                        continue
                    raise Unsupported('call with symbolic star args')
                args += r
            elif isinstance(a, ast.GeneratorExp):
                args.append(LazyGen(a, env))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, dict):
                    raise Unsupported('**')
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        if isinstance(fn, Builtin) and fn.name in ('locals', 'super'):
            raise Unsupported(fn.name)
        return self.call(fn, args, kwargs, e)

    def e_ListComp(self, e, env):
        return self.lib.comprehension(self, e, env, 'list')

    def e_SetComp(self, e, env):
        return self.lib.comprehension(self, e, env, 'set')

    def e_DictComp(self, e, env):
        return self.lib.dict_comprehension(self, e, env)

    def e_GeneratorExp(self, e, env):
        return LazyGen(e, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.store(e.target.id, v, env)
        return v

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name, env=None):
        name = mangle(name, env)
        if isinstance(o, Inst):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return o.cls
            if name == '__module__':
                return 'pydtmc.' + o.cls.module.name
            m = o.cls.lookup(name)
            if m is None:
                h = self.lib.inst_attr(self, o, name)
                if h is not None:
                    return h
                raise PyRaise(ExcV('AttributeError', (name,)))
            if isinstance(m, PropV):
                return self.get_property(o, m)
            if isinstance(m, StaticV):
                return m.fn
            if isinstance(m, FuncV):
                return Bound(o, m)
            return m
        if isinstance(o, ClassV):
            if name in o.attrs:
                return o.attrs[name]
            m = o.lookup(name)
            if isinstance(m, StaticV):
                return m.fn
            if m is not None:
                return m
            if name == '__name__':
                return o.name
            if name == '__module__':
                return 'pydtmc.' + o.module.name
            raise PyRaise(ExcV('AttributeError', (name,)))
        if isinstance(o, ModV):
            return self.lib.module_attr(self, o.name, name)
        return self.lib.attr(self, o, name)

    def get_property(self, o, p):
        q = '%s.%s' % (o.cls.name, p.name)
        h = self.contracts.get('prop:' + q)
        if h is not None:
            ck = '$prop:' + p.name
            if ck not in o.attrs:
                self.used_contracts['contract:' + q] = self.used_contracts.get('contract:' + q, 0) + 1
                o.attrs[ck] = h(self, o)
            v = o.attrs[ck]
            return v
        if p.cached:
            ck = '$cache:' + p.name
            if ck not in o.attrs:
                o.attrs[ck] = self.call_func(p.fn, [o], {})
                mark_owner(o.attrs[ck], 'cache of %s' % p.name)
            return o.attrs[ck]
        return self.call_func(p.fn, [o], {})

    def setattr(self, o, name, v, env=None):
        name = mangle(name, env)
        if isinstance(o, ClassV):
            o.attrs[name] = v
            return
        if isinstance(o, Inst):
            o.attrs[name] = v
            return
        if isinstance(o, Arr) and name == 'shape':
            raise Unsupported('shape assignment')
        raise Unsupported('setattr on %r' % (o,))

    # ------------------------------------------------------------- items
    def getitem(self, o, i):
        if isinstance(o, Arr):
            return self.np.getitem(self, o, i)
        return self.lib.getitem(self, o, i)

    def setitem(self, o, i, v):
        if isinstance(o, Arr):
            return self.np.setitem(self, o, i, v)
        return self.lib.setitem(self, o, i, v)

    def mutating(self, o):
        """frame obligation: only objects created by the call may be written"""
        ow = getattr(o, 'owner', None)
        if ow is not None and not self.quiet:
            self.record(Oblig('frame: no write to %s' % ow, False, '', self.where, FALSE,
                              'in-place write to an object owned by the caller/model', 'frame'))
        elif not self.quiet and self.frame_mode:
            self.record(Oblig('frame: write target is a fresh object', True, 'ownership', self.where, TRUE, kind='frame'))

    # ------------------------------------------------------------- iteration
    def concrete_items(self, v):
        """python list of items if the iterable has concrete length"""
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, (Iter, SList)):
            n = self.ctx.norm(v.length)
            if n.op == 'num':
                return [v.get(num(i)) for i in range(int(n.args[0]))]
            return None
        if isinstance(v, Arr):
            if not v.shape:
                raise PyRaise(ExcV('TypeError', ('iteration over a 0-d array',)))
            n = self.ctx.norm(v.shape[0])
            if n.op == 'num':
                return [self.getitem(v, i) for i in range(int(n.args[0]))]
            return None
        if isinstance(v, LazyGen):
            r = self.lib.comprehension(self, v.node, v.env, 'list')
            return self.concrete_items(r)
        if isinstance(v, self.lib.EdgeView):
            return list(v.items(self))
        if isinstance(v, self.np.NdEnum):
            import itertools
            dims = [self.ctx.norm(x) for x in v.a.shape]
            if all(d.op == 'num' for d in dims):
                return [(ix, self.np.scal(v.a.get(*[num(j) for j in ix]), v.a.dt))
                        for ix in itertools.product(*[range(int(d.args[0])) for d in dims])]
            return None
        return None

    def iterate(self, v):
        """Iter for any iterable"""
        if isinstance(v, Iter):
            return v
        if isinstance(v, LazyGen):
            v = self.lib.comprehension(self, v.node, v.env, 'list')
        c = self.concrete_items(v)
        if c is not None:
            return Iter(num(len(c)), lambda k, c=c: self.index_concrete(c, k))
        if isinstance(v, SList):
            return Iter(v.length, v.get)
        if isinstance(v, Arr):
            snapv = v
            return Iter(v.shape[0], lambda k: self.getitem(snapv, SV(k, 'int')))
        if isinstance(v, SSet):
            r = self.lib.enumerate_set(self, v)
            return Iter(r.length, r.get)
        raise Unsupported('iterate %r' % (v,))

    def index_concrete(self, c, k):
        if k.op == 'num':
            return c[int(k.args[0])]
        # symbolic index in a concrete list of scalars
        if all(is_scalar(x) for x in c) and c:
            r = term(c[-1])
            ty = ntype(c[-1])
            for j in range(len(c) - 2, -1, -1):
                r = ite(eq(k, num(j)), term(c[j]), r)
                if ntype(c[j]) != ty:
                    ty = 'float' if ty != 'str' else ty
            return mkval(r, ty)
        # fork on the index
        for j in range(len(c) - 1):
            if self.decide(eq(k, num(j))):
                return c[j]
        return c[-1]


def replace_app(t, f):
    """replace applications bottom-up"""
    return tm.map_atoms(t, f)


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __deepcopy__(self, memo):
        return self


class StarArg:
    def __init__(self, v):
        self.v = v


class StarOnly(Exception):
    def __init__(self, it):
        self.it = it


class PropV:
    def __init__(self, name, fn, cached):
        self.name, self.fn, self.cached = name, fn, cached

    def __deepcopy__(self, memo):
        return self


class StaticV:
    def __init__(self, fn):
        self.fn = fn

    def __deepcopy__(self, memo):
        return self


class ExcType:
    def __init__(self, name):
        self.name = name

    def __deepcopy__(self, memo):
        return self


EXC_PARENT = {'ZeroDivisionError': 'ArithmeticError', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
              'FileNotFoundError': 'OSError', 'ArithmeticError': 'Exception', 'LookupError': 'Exception',
              'LinAlgError': 'ValueError'}


def exc_subclass(a, b):
    while a is not None:
        if a == b:
            return True
        a = EXC_PARENT.get(a)
    return False


def mangle(name, env):
    if name.startswith('__') and not name.endswith('__') and env is not None:
        e = env
        while e is not None:
            if e.func is not None and e.func.cls is not None:
                return '_%s%s' % (e.func.cls.name.lstrip('_'), name)
            e = e.parent
    return name


def mark_owner(v, owner, depth=0):
    if depth > 4:
        return
    if isinstance(v, (Arr, SList, PList, PDict)):
        if v.owner is None:
            v.owner = owner
    if isinstance(v, (list, tuple)):
        for x in v:
            mark_owner(x, owner, depth + 1)


# ------------------------------------------------------------------ modules

class Module:
    def __init__(self, interp, name, tree):
        self.interp, self.name, self.tree = interp, name, tree
        self.g = {}
        self.lazy = {}

    def __deepcopy__(self, memo):
        return self

    def load(self):
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.g[s.name] = FuncV(s.name, Node(s), None, self)
            elif isinstance(s, ast.ClassDef):
                self.lazy[s.name] = ('class', s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.g[a.asname or a.name.split('.')[0]] = ModV(a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.lazy[a.asname or a.name] = ('from', s, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.lazy[t.id] = ('expr', s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.lazy[s.target.id] = ('expr', s.value)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
            elif isinstance(s, ast.If):
                self._scan(s.body)

    def has(self, name):
        return name in self.g or name in self.lazy

    def lookup(self, name, default='$raise'):
        if name in self.g:
            return self.g[name]
        d = self.lazy.get(name)
        if d is None:
            if default == '$raise':
                raise Unsupported('name %s in module %s' % (name, self.name))
            return default
        I = self.interp
        if d[0] == 'class':
            v = self.build_class(d[1])
        elif d[0] == 'from':
            if self.name != 'custom_types' and d[1].level and d[1].module == 'custom_types':
                v = Opaque('type alias')
            else:
                v = I.import_name(self, d[1], d[2])
        else:
            v = I.eval(d[1], Env(None, self))
        self.g[name] = v
        return v

    def build_class(self, s):
        c = ClassV(s.name, s, self)
        self.g[s.name] = c
        for b in s.bases:
            try:
                bv = self.interp.eval(b, Env(None, self))
            except Unsupported:
                bv = None
            if isinstance(bv, ClassV):
                c.bases.append(bv)
            elif isinstance(bv, ExcType):
                c.bases.append(bv)
        for d in s.body:
            if isinstance(d, ast.FunctionDef):
                f = FuncV(d.name, Node(d), None, self, c)
                decs = [dec_name(x) for x in d.decorator_list]
                key = mangle_cls(d.name, s.name)
                aliases = []
                marks = {}
                for x in d.decorator_list:
                    if isinstance(x, ast.Call) and dec_name(x).lstrip('_') == 'object_mark':
                        for kw in x.keywords:
                            try:
                                marks[kw.arg] = ast.literal_eval(kw.value)
                            except ValueError:
                                raise Unsupported('decorator argument')
                aliases = marks.get('aliases') or []
                f.marks = marks
                if any(x in ('property',) for x in decs):
                    v = PropV(key, f, False)
                elif any(x in ('_cached_property', 'cached_property') for x in decs):
                    v = PropV(key, f, True)
                elif 'staticmethod' in decs:
                    v = StaticV(f)
                elif 'classmethod' in decs:
                    v = f
                else:
                    v = f
                if any(x.endswith('.setter') for x in decs):
                    continue
                c.members[key] = v
                for a in aliases:
                    c.members[a] = PropV(key, f, False) if isinstance(v, PropV) else v
            elif isinstance(d, (ast.Assign, ast.AnnAssign)):
                t = d.targets[0] if isinstance(d, ast.Assign) else d.target
                if d.value is not None and isinstance(t, ast.Name):
                    try:
                        c.attrs[mangle_cls(t.id, s.name)] = self.interp.eval(d.value, Env(None, self))
                    except Unsupported:
                        pass
        return c


def dec_name(x):
    if isinstance(x, ast.Call):
        x = x.func
    if isinstance(x, ast.Name):
        return x.id
    if isinstance(x, ast.Attribute):
        return dec_name(x.value) + '.' + x.attr
    return '?'


def mangle_cls(name, cls):
    if name.startswith('__') and not name.endswith('__'):
        return '_%s%s' % (cls.lstrip('_'), name)
    return name


def _is_exc(self):
    for b in self.bases:
        if isinstance(b, ExcType):
            return True
        if isinstance(b, ClassV) and b.is_exception():
            return True
    return False


ClassV.is_exception = _is_exc
