"""Loops: concrete unrolling; symbolic ranges by proved closed forms."""
import ast
from .terms import *
from . import terms as tm
from .values import *
from .prover import prove, simp


def run_for(I, s, env):
    itv = I.eval(s.iter, env)
    c = I.concrete_items(itv)
    if c is not None and len(c) <= I.MAXUNROLL:
        return unroll(I, s, env, c)
    inv = chosen_invariant(I, s, env)
    if inv:
        return invariant_for(I, s, env, itv, inv)
    from . import symloops
    return symloops.run_for(I, s, env, itv)


def chosen_invariant(I, s, env):
    """the given invariant whose variables are all defined, and (while: some, for: all) assigned or written to by the loop"""
    if not I.while_invs:
        return None
    from . import symloops
    changed = set(symloops.assigned_names(s.body)) | {base_name(t) for b in s.body for t in ast.walk(b) if isinstance(t, ast.Subscript) and isinstance(t.ctx, ast.Store)}
    some = any if isinstance(s, ast.While) else all
    return next((x for x in I.while_invs if not any(x is y for y in I.active_invs) and all(n in find(env, n).vars for n in x[0]) and some(n in changed for n in x[0])), None)


def base_name(t):
    while isinstance(t, (ast.Subscript, ast.Attribute)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


def array_fact(env, f):
    if not isinstance(f, tuple):
        return f
    a = find(env, f[0]).vars[f[0]]
    vs = tuple(tm.fresh('x', 'I') for _ in a.shape)
    fact = lambda *c: forall(vs, implies(conj(*[conj(le(ZERO, x), lt(x, d)) for x, d in zip(vs, a.shape)], *c), eq(a.get(*vs), f[1](*vs))))
    if len(f) > 2:
        # in two cases
        c = f[2](*vs)
        return [fact(c), fact(no(c))]
    return fact()


def all_arrays(env, skip=()):
    from . import symloops
    out, e = {}, env
    while e is not None:
        symloops.reachable_arrays([x for n, x in e.vars.items() if n not in skip], {}, out, set())
        e = e.parent
    return out


def invariant_for(I, s, env, itv, chosen):
    """inv(k, ...) holds after k iterations: on entry for k = 0, and is kept by an arbitrary iteration; arrays named by the
    invariant may be written in place"""
    from . import symloops
    from .npmodel import Arr
    names, inv, _ = chosen
    it = I.iterate(itv)
    m = it.length
    get = lambda: [find(env, n).vars[n] for n in names]

    def check(what, k):
        for j, f in enumerate(inv(k, *get())):
            g = array_fact(env, f)
            for x in g if isinstance(g, list) else [g]:
                I.oblige('loop invariant %d (%s)' % (j, what), x, 'invariant')
    arrays = [n for n in names if isinstance(find(env, n).vars[n], Arr)]
    for n in arrays:
        a = find(env, n).vars[n]
        if a.base is not None or a.owner is not None or id(a) in all_arrays(env, (n,)):
            raise Unsupported('the loop array %s is shared' % n)
    check('entry', ZERO)
    for n in set(symloops.assigned_names(s.body)) | set(arrays):
        e = find(env, n)
        if n in e.vars:
            e.vars[n] = havoc(I, e.vars[n])
    k = tm.fresh('k', 'I')
    I.assume(conj(le(ZERO, k), le(k, m)))
    going = I.decide(lt(k, m))
    if not going:
        k = m
    for f in inv(k, *get()):
        if isinstance(f, tuple):
            a = find(env, f[0]).vars[f[0]]
            a.fn = lambda ix, g=f[1]: g(*ix)
        else:
            I.assume(f)
    I.uses_loop('invariant')
    if going:
        before = {i: (a, a.fn if isinstance(a, Arr) else len(a)) for i, a in all_arrays(env, arrays).items() if isinstance(a, (Arr, list, dict))}
        I.assign(s.target, it.get(k), env)
        I.active_invs.append(chosen)
        try:
            I.exec_block(s.body, env)
        except BreakEx:
            return
        except ContinueEx:
            pass
        finally:
            I.active_invs.remove(chosen)
        if any((a.fn if isinstance(a, Arr) else len(a)) != f for a, f in before.values()):
            raise Unsupported('loop writing to an array or a list')
        check('kept', k + 1)
        raise symloops.PruneEx()
    I.exec_block(s.orelse, env)


def unroll(I, s, env, items):
    # a list mutated while iterated is re-read by position (python semantics)
    broke = False
    for x in items:
        I.assign(s.target, x, env)
        try:
            I.exec_block(s.body, env)
        except BreakEx:
            broke = True
            break
        except ContinueEx:
            continue
    if not broke:
        I.exec_block(s.orelse, env)


def run_while(I, s, env):
    inv = chosen_invariant(I, s, env)
    if inv:
        return invariant_while(I, s, env, *inv)
    for it in range(I.WHILE_BOUND):
        c = I.truth(I.eval(s.test, env))
        if not isinstance(c, bool) and c is not TRUE and c is not FALSE:
            k = I.known(I.ctx.norm(c))
            if k is None and I.while_symbolic:
                from . import symloops
                return symloops.run_while(I, s, env)
        if not I.decide(c):
            I.exec_block(s.orelse, env)
            return
        try:
            I.exec_block(s.body, env)
        except BreakEx:
            return
        except ContinueEx:
            continue
    raise Unsupported('while loop bound')


def find(env, name):
    from .symloops import find_env
    return find_env(env, name)


def havoc(I, v):
    from .npmodel import Arr
    if isinstance(v, bool):
        return SV(tm.fresh('hb', 'B'), 'bool')
    if isinstance(v, int):
        return SV(tm.fresh('hi', 'I'), 'int')
    if isinstance(v, float):
        return SV(tm.fresh('hr', 'R'), 'float')
    if isinstance(v, SV) and v.t.sort in 'IRB':
        return SV(tm.fresh('h', v.t.sort), v.ty)
    if isinstance(v, Arr):
        f = tm.fresh('ha', 'I').args[0]
        sort = {'f': 'R', 'i': 'I', 'b': 'B'}[v.dt]
        return Arr(v.shape, v.dt, lambda ix: app(f, list(ix), sort))
    raise Unsupported('loop variable of an unknown kind: %r' % (v,))


def invariant_while(I, s, env, names, inv, variant):
    """the invariant holds on entry, is kept by an arbitrary iteration, and holds after the loop

    inv gives facts, or pairs (array variable, contents)"""
    from . import symloops
    from .npmodel import Arr
    get = lambda: [find(env, n).vars[n] for n in names]
    check = lambda what: [I.oblige('loop invariant (%s)' % what, array_fact(env, f), 'invariant') for f in inv(*get())]
    check('entry')
    for n in symloops.assigned_names(s.body):
        e = find(env, n)
        if n in e.vars:
            e.vars[n] = havoc(I, e.vars[n])
    for f in inv(*get()):
        if isinstance(f, tuple):
            a = find(env, f[0]).vars[f[0]]
            find(env, f[0]).vars[f[0]] = Arr(a.shape, a.dt, lambda ix, g=f[1]: g(*ix))
        else:
            I.assume(f)
    I.uses_loop('invariant')
    if I.decide(I.truth(I.eval(s.test, env))):
        arrs = {}
        e = env
        while e is not None:
            symloops.reachable_arrays(list(e.vars.values()), {}, arrs, set())
            e = e.parent
        before = {k: (a, a.fn if isinstance(a, Arr) else len(a)) for k, a in arrs.items() if isinstance(a, (Arr, list, dict))}
        v0 = variant(*get()) if variant else None
        try:
            I.exec_block(s.body, env)
        except BreakEx:
            return
        except ContinueEx:
            pass
        if any((a.fn if isinstance(a, Arr) else len(a)) != f for a, f in before.values()):
            raise Unsupported('while loop writing to an array or a list')
        check('kept')
        if variant:
            v1 = variant(*get())
            I.oblige('loop variant decreases', conj(le(ZERO, v0), lt(v1, v0)), 'invariant')
        raise symloops.PruneEx()
    I.exec_block(s.orelse, env)
