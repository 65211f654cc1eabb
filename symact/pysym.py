"""Symbolic Python scalars: the code under test runs on them, branches fork the execution."""
from . import ir
from .ir import mk, const, var, Not, Unsupported, is_float

CURRENT = []        # the active Forks


def term(x, dt):
    if isinstance(x, Sym):
        return x.t if x.t.dt == dt else mk('conv', x.t, dt=dt)
    if isinstance(x, (bool, int, float)) or hasattr(x, '__float__'):
        if dt != 'b' and not is_float(dt) and isinstance(x, float):
            raise Unsupported('integer against float')
        return const(x, dt)
    return None


def common(a, b):
    if isinstance(b, Sym):
        return 'f64' if 'f64' in (a.t.dt, b.t.dt) else ('i64' if a.t.dt == 'b' and b.t.dt == 'b' else 'i64' if 'i64' in (a.t.dt, b.t.dt) else a.t.dt)
    if isinstance(b, float):
        return 'f64'
    return 'i64' if a.t.dt == 'b' else a.t.dt


def bounds(x):
    """What a symbolic integer lies between, where that is known."""
    if isinstance(x, Sym):
        return (0, 1) if x.t.dt == 'b' else (x.lo, x.hi)
    return (x, x) if isinstance(x, int) else (None, None)


def interval(op, a, b):
    if op not in ('add', 'sub', 'mul') or None in (*a, *b):
        return None, None
    f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
    v = [f(x, y) for x in a for y in b]
    return max(v), min(v)


def binop(op, swap=False):
    def f(self, o):
        if not isinstance(o, (Sym, bool, int, float)):
            return NotImplemented
        dt = common(self, o)
        x, y = term(self, dt), term(o, dt)
        return Sym(mk(op, y, x) if swap else mk(op, x, y), *interval(op, bounds(o), bounds(self)) if swap else interval(op, bounds(self), bounds(o)))
    return f


def relop(op, swap=False, neg=False):
    def f(self, o):
        if not isinstance(o, (Sym, bool, int, float)):
            return NotImplemented if op not in ('eq',) else neg
        dt = common(self, o)
        x, y = term(self, dt), term(o, dt)
        r = mk('same' if op == 'eq' and not is_float(dt) else op, *((y, x) if swap else (x, y)))
        return Sym(Not(r) if neg else r)
    return f


class Sym:
    def __init__(self, t, hi=None, lo=0):
        self.t, self.hi, self.lo = t, hi, lo

    __add__, __radd__ = binop('add'), binop('add', True)
    __sub__, __rsub__ = binop('sub'), binop('sub', True)
    __mul__, __rmul__ = binop('mul'), binop('mul', True)
    __truediv__, __rtruediv__ = binop('div'), binop('div', True)
    __lt__, __gt__ = relop('lt'), relop('lt', True)
    __le__, __ge__ = relop('le'), relop('le', True)
    __eq__, __ne__ = relop('eq'), relop('eq', neg=True)

    def __neg__(self): return Sym(mk('neg', self.t), *interval('sub', (0, 0), bounds(self)))
    def __and__(self, o): return Sym(ir.And(tobool(self), tobool(o)))
    def __or__(self, o): return Sym(ir.Or(tobool(self), tobool(o)))
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): return Sym(Not(tobool(self)))

    def __bool__(self):
        c = tobool(self)
        if c.op == 'const':
            return bool(c.aux)
        return CURRENT[-1].decide(c)

    def __index__(self):
        if is_float(self.t.dt):
            raise TypeError('float used as an index')
        if self.t.op == 'const':
            return int(self.t.aux)
        if self.t.dt == 'b':
            return int(bool(self))
        if self.hi is None or self.lo is None:
            raise Unsupported('a symbolic integer without bounds was turned into a concrete one')
        for v in range(self.lo, self.hi):
            if CURRENT[-1].decide(mk('same', self.t, const(v, self.t.dt))):
                return v
        return self.hi
    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        if not is_float(self.t.dt):
            return float(self.__index__())
        raise Unsupported('a symbolic float was turned into a concrete one')

    def __repr__(self):
        return f'<{ir.show(self.t)}>'


def tobool(x):
    if isinstance(x, Sym):
        return x.t if x.t.dt == 'b' else Not(mk('same' if not is_float(x.t.dt) else 'eq', x.t, const(0, x.t.dt)))
    return const(bool(x), 'b')


class FakeArray:
    """Something with a symbolic shape.  Anything beyond shape, ndim and dtype makes it a concrete array."""

    def __init__(self, shape, dtype='float32'):
        import numpy as np
        self._shape, self._dtype, self._real = tuple(shape), np.dtype(dtype), None

    @property
    def shape(self): return self._shape
    @property
    def ndim(self): return len(self._shape)
    @property
    def dtype(self): return self._dtype
    weak_type = False
    @property
    def aval(self): return self  # asked for its shape, dtype and weak_type
    @property
    def size(self):
        n = 1
        for s in self._shape:
            n = n * s
        return n

    def real(self):
        from jax import numpy as jnp
        if self._real is None:
            self._real = jnp.zeros([int(s) for s in self._shape], self._dtype)
        return self._real

    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        return int(self._shape[0])

    def __getattr__(self, k):
        if k.startswith('_') and k not in ('__jax_array__', '__array__'):
            raise AttributeError(k)
        if k == '__jax_array__':
            return self.real
        return getattr(self.real(), k)

    def __getitem__(self, k): return self.real()[k]
