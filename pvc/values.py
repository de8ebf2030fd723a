"""Symbolic values manipulated by the interpreter."""
import copy
from .terms import *
from . import terms as tm


class Unsupported(Exception):
    """the code uses a construct outside the supported subset"""


class SV:
    """symbolic scalar: term + python type tag"""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<%s:%s>' % (self.ty, show(self.t)[:200])


tm.T.__deepcopy__ = lambda self, memo: self
tm.T.__copy__ = lambda self: self


class Opaque:
    """a value nothing is known about (format strings, error messages, type aliases)"""

    def __init__(self, what='opaque'):
        self.what = what

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<opaque %s>' % self.what


INT_T = ('int', 'npint')
FLT_T = ('float', 'npfloat')


def term(v):
    """numeric/bool/str value -> term"""
    if isinstance(v, SV):
        return v.t
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v == float('inf'):
            return PINF
        if v == float('-inf'):
            return NINF
        return num(tm._fl(v))
    if isinstance(v, str):
        return strlit(v)
    if isinstance(v, T):
        return v
    if isinstance(v, Arr) and len(v.shape) == 0:
        return v.get()
    raise Unsupported('not a scalar: %r' % (v,))


def ntype(v):
    if isinstance(v, SV):
        return v.ty
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, Arr) and len(v.shape) == 0:
        return {'f': 'npfloat', 'i': 'npint', 'b': 'npbool', 'u': 'str'}[v.dt]
    return None


def is_scalar(v):
    return ntype(v) is not None


def mkval(t, ty):
    """term -> python constant when possible"""
    if t.op == 'num' and ty in ('int',):
        return int(t.args[0])
    if ty in ('bool',):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
    if t.op == 'strlit' and ty == 'str':
        return t.args[0]
    return SV(t, ty)


def num01(t):
    """term usable as a number (booleans become Iverson brackets)"""
    return ivr(t) if t.sort == 'B' else t


class Obj:
    """mutable heap object with ownership and version tracking"""
    owner = None


class Arr(Obj):
    def __init__(self, shape, dt, fn=None, base=None, vmap=None, vinv=None, owner=None):
        self.shape = tuple(lift(s) for s in shape)
        self.dt = dt
        self.fn = fn
        self.base = base
        self.vmap = vmap
        self.vinv = vinv
        self.owner = owner
        self.gathered = None
        self.const = None

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    def get(self, *idx):
        idx = tuple(lift(i) for i in idx)
        if self.base is not None:
            return self.base.get(*self.vmap(idx))
        return self.fn(idx)

    def snap(self):
        if self.base is None:
            return self.fn
        b, m = self.base.snap(), self.vmap
        return lambda idx: b(m(idx))

    def __repr__(self):
        return '<Arr %s %s>' % (self.dt, 'x'.join(show(s) for s in self.shape))

    def __deepcopy__(self, memo):
        r = memo.get(id(self))
        if r is not None:
            return r
        a = Arr(self.shape, self.dt, self.fn, None, self.vmap, self.vinv, self.owner)
        memo[id(self)] = a
        a.gathered = self.gathered
        if self.base is not None:
            a.base = copy.deepcopy(self.base, memo)
        ORIG.setdefault(id(a), (a, self))
        return a


ORIG = {}


class SList(Obj):
    """list of symbolic length; get(index term) -> value"""

    def __init__(self, length, get, owner=None, elty=None):
        self.length = lift(length)
        self.get = get
        self.owner = owner
        self.elty = elty        # 'int','str','arr',... (informative)
        self.memfn = None       # membership predicate x -> Bool term
        self.wit = None
        self.facts = {}

    def __deepcopy__(self, memo):
        r = memo.get(id(self))
        if r is not None:
            return r
        a = SList(self.length, self.get, self.owner, self.elty)
        a.memfn, a.wit, a.facts = self.memfn, self.wit, dict(self.facts)
        memo[id(self)] = a
        return a

    def __repr__(self):
        return '<SList len=%s %s>' % (show(self.length), self.elty)


class SSet(Obj):
    """set of scalar terms given by a membership predicate"""

    def __init__(self, mem, src=None, lo=None, hi=None):
        self.mem = mem
        self.src = src          # SList it enumerates, if any
        self.lo, self.hi = lo, hi

    def __deepcopy__(self, memo):
        return self


class Iter:
    """normalised iterable: length term and element getter"""

    def __init__(self, length, get, desc=''):
        self.length, self.get, self.desc = length, get, desc

    def __deepcopy__(self, memo):
        return self


class LazyGen:
    """generator expression, evaluated on demand"""

    def __init__(self, node, env):
        self.node, self.env = node, env


class Node:
    """AST holder that is atomic for deepcopy"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __deepcopy__(self, memo):
        return self


class FuncV:
    def __init__(self, name, node, env, module, cls=None):
        self.name, self.node, self.env, self.module, self.cls = name, node, env, module, cls
        self.defaults = None

    def __deepcopy__(self, memo):
        r = memo.get(id(self))
        if r is not None:
            return r
        if self.env is None:
            return self
        f = FuncV(self.name, self.node, None, self.module, self.cls)
        memo[id(self)] = f
        f.env = copy.deepcopy(self.env, memo)
        f.defaults = self.defaults
        return f

    def __repr__(self):
        return '<func %s>' % self.name


class ClassV:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.members = {}
        self.attrs = {}
        self.bases = []

    def __deepcopy__(self, memo):
        return self

    def lookup(self, name):
        if name in self.members:
            return self.members[name]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class LockV:
    """a re-entrant lock: how often it is held"""
    depth = 0


class Inst(Obj):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return '<%s instance>' % self.cls.name


class Bound:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<builtin %s>' % self.name


class ModV:
    """external library module"""

    def __init__(self, name):
        self.name = name

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<module %s>' % self.name


class TypeV:
    """builtin type object"""

    def __init__(self, name):
        self.name = name

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<type %s>' % self.name


class ExcV:
    def __init__(self, tname, args=()):
        self.tname, self.args = tname, args

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'exc:%s' % self.tname


class DictFrom(dict):
    pass


class Env:
    """local scope"""

    def __init__(self, parent=None, module=None, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.nonlocal_ = set()

    def __deepcopy__(self, memo):
        r = memo.get(id(self))
        if r is not None:
            return r
        e = Env(None, self.module, self.func)
        memo[id(self)] = e
        e.parent = copy.deepcopy(self.parent, memo) if self.parent is not None else None
        for k, v in self.vars.items():
            e.vars[k] = copy.deepcopy(v, memo)
        e.nonlocal_ = self.nonlocal_
        return e


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass
