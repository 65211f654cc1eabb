"""A hash-consed term language over scalars.

Terms are produced by the jaxpr translator (the code under test) and by the
specifications.  One term has three meanings:
  * 'fp'  : SMT, IEEE-754 floats of the dtype's width, bit-vector ints
  * 're'  : SMT, mathematical reals and integers
  * concrete evaluation, with numpy scalars ('fp') or Fractions ('re')
"""
from fractions import Fraction
import math
import numpy as np
import ml_dtypes

_NP = {'f32': np.float32, 'f16': np.float16, 'f64': np.float64, 'bf16': ml_dtypes.bfloat16,
       'i32': np.int32, 'u32': np.uint32, 'i8': np.int8, 'u8': np.uint8, 'i16': np.int16, 'u16': np.uint16,
       'i64': np.int64, 'u64': np.uint64, 'b': np.bool_}
_TAG = {np.dtype(v): k for k, v in _NP.items()}
FLOATS = ('f32', 'f16', 'f64', 'bf16')
FPBITS = {'f32': (8, 24), 'f16': (5, 11), 'f64': (11, 53), 'bf16': (8, 8)}


class Unsupported(Exception):
    """The encoding does not reach this: the check is inconclusive, never 'holds'."""


def tag(dtype):
    try:
        return _TAG[np.dtype(dtype)]
    except (KeyError, TypeError):
        raise Unsupported(f"dtype {dtype}")


def np_of(dt):
    return _NP[dt]


def is_float(dt):
    return dt in FLOATS


def is_int(dt):
    return dt not in FLOATS and dt != 'b'


COMM = {'add', 'mul', 'max', 'min', 'and', 'or', 'eq', 'ne', 'same', 'ident', 'req', 'xor'}
BOOLOPS = {'and', 'or', 'not', 'xor', 'lt', 'le', 'eq', 'ne', 'same', 'ident', 'req', 'isnan', 'isinf', 'finite'}


class N:
    __slots__ = ('op', 'args', 'dt', 'aux', 'id', '__weakref__')
    _tab = {}
    _next = 0

    def __repr__(self):
        return show(self)

    # numeric operators for writing specifications
    def __add__(s, o): return mk('add', s, lift(o, s.dt))
    def __radd__(s, o): return mk('add', lift(o, s.dt), s)
    def __sub__(s, o): return mk('sub', s, lift(o, s.dt))
    def __rsub__(s, o): return mk('sub', lift(o, s.dt), s)
    def __mul__(s, o): return mk('mul', s, lift(o, s.dt))
    def __rmul__(s, o): return mk('mul', lift(o, s.dt), s)
    def __neg__(s): return mk('neg', s)
    def __lt__(s, o): return mk('lt', s, lift(o, s.dt))
    def __le__(s, o): return mk('le', s, lift(o, s.dt))
    def __gt__(s, o): return mk('lt', lift(o, s.dt), s)
    def __ge__(s, o): return mk('le', lift(o, s.dt), s)
    def __and__(s, o): return And(s, o)
    def __or__(s, o): return Or(s, o)
    def __invert__(s): return Not(s)
    def __bool__(s):
        raise TypeError("symbolic term used as a Python bool")


def _key(op, args, dt, aux):
    if op == 'const':
        return (op, dt, np_of(dt)(aux).tobytes())
    return (op, dt, aux, tuple(a.id for a in args))


def raw(op, args, dt, aux=None):
    k = _key(op, args, dt, aux)
    n = N._tab.get(k)
    if n is None:
        n = N.__new__(N)
        n.op, n.args, n.dt, n.aux = op, args, dt, aux
        n.id = N._next
        N._next += 1
        N._tab[k] = n
    return n


def reset():
    N._tab.clear()
    global T, F
    T = const(True, 'b')
    F = const(False, 'b')


def const(v, dt):
    return raw('const', (), dt, np_of(dt)(v))


T = const(True, 'b')
F = const(False, 'b')


def var(name, dt):
    return raw('var', (), dt, name)


def lift(o, dt):
    if isinstance(o, N):
        return o
    if isinstance(o, (bool, np.bool_)):
        return const(bool(o), 'b')
    return const(o, dt)


def mk(op, *args, dt=None, aux=None):
    a0 = args[0]
    if dt is None:
        if op in BOOLOPS:
            dt = 'b'
        elif op == 'ite':
            dt = args[1].dt
        else:
            dt = a0.dt
    if op in ('add', 'sub', 'mul', 'div', 'max', 'min', 'rem', 'lt', 'le', 'eq', 'ne', 'same', 'ident', 'req'):
        if args[0].dt != args[1].dt:
            raise Unsupported(f"mixed dtypes in {op}: {args[0].dt} {args[1].dt}")
    if op == 'ite' and args[1].dt != args[2].dt:
        raise Unsupported(f"mixed dtypes in ite: {args[1].dt} {args[2].dt}")
    # --- folding
    if op in ('same', 'ident', 'req') and args[0] is args[1]:
        return const(True, 'b')
    if op == 'conv' and a0.dt == dt:
        return a0
    if op == 'not':
        if a0.op == 'not':
            return a0.args[0]
    if op == 'and':
        a, b = args
        if a is b: return a
        for x, y in ((a, b), (b, a)):
            if x.op == 'const':
                return y if bool(x.aux) else const(False, 'b')
        if (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a):
            return const(False, 'b')
    if op == 'or':
        a, b = args
        if a is b: return a
        for x, y in ((a, b), (b, a)):
            if x.op == 'const':
                return const(True, 'b') if bool(x.aux) else y
        if (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a):
            return const(True, 'b')
    if op in ('and', 'or') and args[0].op == 'not' and args[1].op == 'not':
        return mk('not', mk('or' if op == 'and' else 'and', args[0].args[0], args[1].args[0]))
    if op == 'ite':
        c, a, b = args
        if c.op == 'const':
            return a if bool(c.aux) else b
        if a is b:
            return a
        if c.op == 'not':
            return mk('ite', c.args[0], b, a, dt=dt)
        if dt == 'b' and a.op == 'const' and b.op == 'const':
            return c if bool(a.aux) else mk('not', c)
        # ite(c, ite(c, x, y), z) -> ite(c, x, z)
        if a.op == 'ite' and a.args[0] is c:
            return mk('ite', c, a.args[1], b, dt=dt)
        if b.op == 'ite' and b.args[0] is c:
            return mk('ite', c, a, b.args[2], dt=dt)
    if op != 'uf' and all(a.op == 'const' for a in args):
        v = eval_op(op, [a.aux for a in args], dt, [a.dt for a in args], aux)
        return const(v, dt)
    if op in COMM and args[0].id > args[1].id:
        args = (args[1], args[0])
    return raw(op, tuple(args), dt, aux)


def And(*xs):
    xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
    r = const(True, 'b')
    for x in xs:
        r = mk('and', r, lift(x, 'b'))
    return r


def Or(*xs):
    xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
    r = const(False, 'b')
    for x in xs:
        r = mk('or', r, lift(x, 'b'))
    return r


def Not(x): return mk('not', lift(x, 'b'))
def Implies(a, b): return Or(Not(a), b)
def If(c, a, b):
    dt = a.dt if isinstance(a, N) else b.dt
    return mk('ite', lift(c, 'b'), lift(a, dt), lift(b, dt))
def _rel(op, a, b):
    """Not folded when both sides are one term: the solver gets to see the goal."""
    b = lift(b, a.dt)
    if b.dt != a.dt:
        return const(False, 'b')        # numbers of different types: the code gave the wrong one
    return raw(op, (a, b), 'b') if a is b else mk(op, a, b)


def Iff(a, b): return _rel('same', lift(a, 'b'), lift(b, 'b'))
def same(a, b):
    """Equal, with no rounding allowed for; NaN equals NaN and the zeros are one number."""
    return _rel('same', a, b)
def ident(a, b):
    """Bit-identical: for hypotheses."""
    return _rel('ident', a, b)
def eq(a, b): return mk('eq', a, lift(b, a.dt))
def req(a, b):
    """Equal as a number, up to rounding in a Real-mode replay; NaN equals NaN."""
    return _rel('req', a, b)
def isnan(a): return mk('isnan', a)
def finite(a): return mk('finite', a)
def conv(a, dt): return mk('conv', a, dt=dt)
def Max(a, b): return mk('max', a, lift(b, a.dt))
def Min(a, b): return mk('min', a, lift(b, a.dt))


# ----------------------------------------------------------------- evaluation
def _tofloat(v):
    return float(v)


def _isnan(v):
    return isinstance(v, (float, np.floating, ml_dtypes.bfloat16)) and math.isnan(float(v))


def _close(a, b, tol):
    if isinstance(a, (bool, np.bool_)):
        return bool(a) == bool(b)
    if _isnan(a) or _isnan(b):
        return _isnan(a) and _isnan(b)
    fa, fb = float(a), float(b)
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    if tol:
        return abs(fa - fb) <= tol * (1 + abs(fa) + abs(fb))
    return a == b


def eval_op(op, v, dt, adts, aux, tol=0):
    """One operation on numpy scalars (IEEE in the dtype)."""
    with np.errstate(all='ignore'):
        if op == 'add': return np_of(dt)(v[0] + v[1])
        if op == 'sub': return np_of(dt)(v[0] - v[1])
        if op == 'mul': return np_of(dt)(v[0] * v[1])
        if op == 'div':
            if is_int(dt):
                return np_of(dt)(int(v[0] / v[1])) if v[1] != 0 else np_of(dt)(-1)
            return np_of(dt)(v[0] / v[1])
        if op == 'rem': return np_of(dt)(math.fmod(v[0], v[1])) if v[1] != 0 else np_of(dt)(v[0])
        if op in ('iand', 'ior', 'ixor'): return np_of(dt)({'iand': int(v[0]) & int(v[1]), 'ior': int(v[0]) | int(v[1]), 'ixor': int(v[0]) ^ int(v[1])}[op])
        if op == 'neg': return np_of(dt)(-v[0])
        if op == 'abs': return np_of(dt)(abs(v[0]))
        if op == 'sign':
            return v[0] if _isnan(v[0]) else np_of(dt)((v[0] > 0) * 1 - (v[0] < 0) * 1)
        if op == 'floor': return np_of(dt)(np.floor(np.float64(v[0])))
        if op == 'rint': return np_of(dt)(np.rint(np.float64(v[0])))
        if op == 'ceil': return np_of(dt)(np.ceil(np.float64(v[0])))
        if op in ('max', 'min'):
            if _isnan(v[0]): return v[0]
            if _isnan(v[1]): return v[1]
            return max(v) if op == 'max' else min(v)
        if op == 'lt': return np.bool_(v[0] < v[1])
        if op == 'le': return np.bool_(v[0] <= v[1])
        if op == 'eq': return np.bool_(v[0] == v[1])
        if op == 'ne': return np.bool_(v[0] != v[1])
        if op == 'ident' and is_float(adts[0]):
            return np.bool_(_isnan(v[0]) and _isnan(v[1]) or np_of(adts[0])(v[0]).tobytes() == np_of(adts[0])(v[1]).tobytes())
        if op in ('same', 'ident'):
            if _isnan(v[0]) and _isnan(v[1]): return np.bool_(True)
            return np.bool_(v[0] == v[1])
        if op == 'req': return np.bool_(_close(v[0], v[1], tol))
        if op == 'and': return np.bool_(v[0] and v[1])
        if op == 'or': return np.bool_(v[0] or v[1])
        if op == 'xor': return np.bool_(bool(v[0]) != bool(v[1]))
        if op == 'not': return np.bool_(not v[0])
        if op == 'ite': return v[1] if v[0] else v[2]
        if op == 'isnan': return np.bool_(_isnan(v[0]))
        if op == 'isinf': return np.bool_(math.isinf(float(v[0])))
        if op == 'finite': return np.bool_(math.isfinite(float(v[0])))
        if op == 'conv':
            if is_float(adts[0]) and is_int(dt):
                return np_of(dt)(int(float(v[0]))) if math.isfinite(float(v[0])) else np_of(dt)(0)
            if dt == 'b': return np.bool_(v[0] != 0)
            if adts[0] == 'bf16': return np_of(dt)(np.float32(v[0]))
            if adts[0] == 'b': return np_of(dt)(int(v[0]))
            return np_of(dt)(v[0])
    raise Unsupported(f"eval {op}")


def eval_frac(op, v, dt, adts, aux, tol):
    if op == 'add': return v[0] + v[1]
    if op == 'sub': return v[0] - v[1]
    if op == 'mul': return v[0] * v[1]
    if op == 'div': return v[0] / v[1] if is_float(dt) else Fraction(int(v[0] / v[1]))
    if op == 'neg': return -v[0]
    if op == 'abs': return abs(v[0])
    if op == 'sign': return Fraction((v[0] > 0) - (v[0] < 0))
    if op == 'max': return max(v)
    if op == 'min': return min(v)
    if op == 'floor': return Fraction(math.floor(v[0]))
    if op == 'rint': return Fraction(round(v[0]))
    if op == 'ceil': return Fraction(math.ceil(v[0]))
    if op == 'lt': return v[0] < v[1]
    if op == 'le': return v[0] <= v[1]
    if op in ('eq', 'same', 'ident'): return v[0] == v[1]
    if op == 'req': return _close(v[0], v[1], tol)
    if op == 'ne': return v[0] != v[1]
    if op == 'and': return bool(v[0] and v[1])
    if op == 'or': return bool(v[0] or v[1])
    if op == 'xor': return bool(v[0]) != bool(v[1])
    if op == 'not': return not v[0]
    if op == 'ite': return v[1] if v[0] else v[2]
    if op in ('isnan', 'isinf'): return False
    if op == 'finite': return True
    if op == 'conv':
        if dt == 'b': return v[0] != 0
        if is_int(dt) and is_float(adts[0]): return Fraction(int(v[0]))
        return Fraction(int(v[0])) if adts[0] == 'b' else v[0]
    raise Unsupported(f"eval {op}")


def to_frac(v, dt):
    if dt == 'b':
        return bool(v)
    if is_float(dt):
        f = float(v)
        if not math.isfinite(f):
            return f
        return Fraction(f)
    return Fraction(int(v))


UF_VALUES = {'sqrt': math.sqrt, 'rsqrt': lambda v: 1 / math.sqrt(v), 'exp': math.exp, 'log': math.log, 'tanh': math.tanh, 'sin': math.sin,
             'cos': math.cos, 'expm1': math.expm1, 'log1p': math.log1p, 'logistic': lambda v: 1 / (1 + math.exp(-v))}


def evaluate(root, envd, mode='fp', tol=0):
    memo = {}
    for n in topo([root]):
        if n.op == 'const':
            memo[n.id] = n.aux if mode == 'fp' else to_frac(n.aux, n.dt)
        elif n.op == 'var':
            if n.aux not in envd:
                raise Unsupported(f"no value for {n.aux}")
            v = envd[n.aux]
            memo[n.id] = v if mode == 'fp' else to_frac(v, n.dt)
        elif n.op == 'uf':
            f = UF_VALUES.get(n.aux) if len(n.args) == 1 else None
            if f is None:
                raise Unsupported('evaluating an uninterpreted function')
            try:
                v = f(float(memo[n.args[0].id]))
            except (ValueError, OverflowError, ZeroDivisionError):
                v = math.nan
            memo[n.id] = np_of(n.dt)(v) if mode == 'fp' else to_frac(v, n.dt)
        else:
            f = eval_op if mode == 'fp' else eval_frac
            memo[n.id] = f(n.op, [memo[a.id] for a in n.args], n.dt, [a.dt for a in n.args], n.aux, tol)
    return memo[root.id]


def topo(roots):
    seen, out = set(), []
    for r in roots:
        if r.id in seen:
            continue
        stack = [(r, False)]
        while stack:
            n, done = stack.pop()
            if done:
                out.append(n)
                continue
            if n.id in seen:
                continue
            seen.add(n.id)
            stack.append((n, True))
            for a in n.args:
                if a.id not in seen:
                    stack.append((a, False))
    return out


def variables(roots):
    return [n for n in topo(roots) if n.op == 'var']


def substitute(root, m):
    """Replace variables (by name) with terms."""
    memo = {}
    for n in topo([root]):
        if n.op == 'var':
            memo[n.id] = m.get(n.aux, n)
        elif n.op == 'const':
            memo[n.id] = n
        elif n.op == 'uf':
            memo[n.id] = raw('uf', tuple(memo[a.id] for a in n.args), n.dt, n.aux)
        else:
            memo[n.id] = mk(n.op, *[memo[a.id] for a in n.args], dt=n.dt, aux=n.aux)
    return memo[root.id]


def show(n, depth=6):
    if n.op == 'const': return str(n.aux)
    if n.op == 'var': return n.aux
    if depth == 0: return '...'
    return f"({n.op}{':' + str(n.aux) if n.aux is not None else ''} " + ' '.join(show(a, depth - 1) for a in n.args) + ')'
