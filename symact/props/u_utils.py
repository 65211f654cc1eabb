"""U: broadcasting and tree utilities."""
import collections
import contextlib
import itertools
from ..common import *
from .. import ir
from ..ir import And, Or, Not, Implies, If, same, Iff, conv, mk, const
from ..pysym import FakeArray, Sym
from src.jax_act.core import utils
from .c_proto import pick


# U01 ------------------------------------------------------------------------------------
def u01(tier):
    """Every pair of shapes: dimensions are symbolic integers, the two ranks are enumerated."""
    out = []
    R = 4 if tier == 'quick' else 5
    for ra in range(R + 1):
        for rb in range(R + 1):
            ins = {f'a{k}': Inp((), 'i64', ('range', 0, 12), py=True) for k in range(ra)}
            ins.update({f'b{k}': Inp((), 'i64', ('range', 0, 12), py=True) for k in range(rb)})

            def run(a, ra=ra, rb=rb):
                A = FakeArray([a[f'a{k}'] for k in range(ra)])
                B = FakeArray([a[f'b{k}'] for k in range(rb)])
                with library_rule():
                    r = utils.can_right_broadcast(A, B)
                return {'ok': bool(r)}

            def post(I, O, ra=ra, rb=rb):
                g = lambda n: I[n].reshape(-1)[0]
                want = const(True, 'b')
                for k in range(1, min(ra, rb) + 1):
                    x, y = g(f'a{ra - k}'), g(f'b{rb - k}')
                    one = const(1, 'i64')
                    want = And(want, Or(mk('same', x, y), mk('same', x, one), mk('same', y, one)))
                yield 'the answer is numpy\'s broadcasting rule', Iff(O['ok'].reshape(-1)[0], want)
            out.append(Case(f'U01:rank{ra}-{rb}:re', ins, run, post, mode='re', maxpaths=400, dyadic=1,
                            smaller={n: Inp((), 'i64', few((ra if n[0] == 'a' else rb) - int(n[1])), py=True) for n in ins}))
    return out


def few(fromright):
    """For code which turns every dimension into a number, so that each combination is a path of its own."""
    return ('range', *{1: (0, 3), 2: (1, 2), 3: (2, 3)}.get(fromright, (1, 1)))


@contextlib.contextmanager
def library_rule():
    """The libraries' own broadcasting of shapes, on symbolic dimensions (they would enumerate every dimension)."""
    def model(real):
        def f(*shapes):
            if not any(isinstance(d, Sym) for s in shapes for d in (s if isinstance(s, (tuple, list)) else (s,))):
                return real(*shapes)
            out = ()
            for s in (tuple(s) if isinstance(s, (tuple, list)) else (s,) for s in shapes):
                n = max(len(s), len(out))
                x, y = (1,) * (n - len(out)) + out, (1,) * (n - len(s)) + s
                out = ()
                for a, b in zip(x, y):
                    if a == b or b == 1:
                        out += (a,)
                    elif a == 1:
                        out += (b,)
                    else:
                        raise ValueError('shapes cannot be broadcast')
            return out
        return f
    places = [(m, getattr(m, 'broadcast_shapes')) for m in (np, jnp, jax.lax)]
    try:
        for m, f in places:
            setattr(m, 'broadcast_shapes', model(f))
        yield
    finally:
        for m, f in places:
            setattr(m, 'broadcast_shapes', f)


# U02 ------------------------------------------------------------------------------------
def shapes(maxrank, dims):
    for r in range(maxrank + 1):
        yield from itertools.product(dims, repeat=r)


def u02(tier):
    out = []
    pairs = []
    tens = list(shapes(3, (1, 2)))
    for t in tens:
        for tail in list(shapes(2 if tier == 'quick' else 3, (1, 2, 3))):
            for head in ([t] if len(t) else [(), (2,)]):
                pairs.append((t, head + tail))
    for t, target in pairs:
        def run(a, t=t, target=target):
            y = utils.setup_left_broadcast(a['x'], a['y'])
            z = jnp.broadcast_to(y, target)
            return {'z': z, 'y': y}

        def post(I, O, t=t, target=target):
            for i in np.ndindex(*target):
                j = tuple(0 if t[k] == 1 else i[k] for k in range(len(t)))
                yield 'element [i, j] of the broadcast is element [i] of the tensor', same(O['z'][i], I['x'][j])
        n = len(target)
        outs = {'z': Out(target, 'f32'), 'y': Out(() if t == () else t + (1,) * (n - len(t)), 'f32')}
        out.append(Case(f'U02:{t}->{target}'.replace(' ', '') + ':fp', {'x': Inp(t, 'f32', 'any'), 'y': Inp(target, 'f32', 'any')},
                        run, post, outs))
    for t, target in (((2, 1), (2,)), ((2, 2, 2), (2, 2)), ((1,), ()), ((2, 3), ())):
        def run2(a):
            return {'y': utils.setup_left_broadcast(a['x'], a['y'])}
        out.append(Case(f'U02:refuse-{t}->{target}'.replace(' ', '') + ':fp', {'x': Inp(t, 'f32', 'any'), 'y': Inp(target, 'f32', 'any')},
                        run2, lambda I, O: [], raises=lambda I: const(True, 'b'), jit_replay=False))
    return out


# trees ----------------------------------------------------------------------------------
X = 'leaf'
OD = collections.OrderedDict
Coord = collections.namedtuple('Coord', ['left', 'right'])
TREES = [X, [X], (X,), {'a': X}, [X, X], (X, X), {'a': X, 'b': X}, {'b': X, 'a': X}, {'a': X, 'c': X}, {'aa': X, 'b': X}, [], (), {}, None,
         [X, [X, X]], [[X], X], {'a': [X, X], 'b': X}, {'a': X, 'b': (X, {'k': X})}, [X, None], [None, X], [X, [], X],
         [[], X], {'a': {}, 'b': X}, (X, (X, (X, X))), [X, X, X], [{'a': X}, X], [(X, X), [X, X]], [[X, X], [X, X]],
         {'a': {'a': X, 'b': X}}, [[[X]]], {'z': X, 'y': [X, {'w': X}], 'x': ()},
         OD([('x', X), ('y', X)]), OD([('y', X), ('x', X)]), {'x': X, 'y': X}, OD([('x', [X, X]), ('y', X)]),
         OD([('y', X), ('x', [X, X])]), [OD([('q', X), ('p', X)]), X], [OD([('p', X), ('q', X)]), X],
         {'b': X}, {'b': [X, X]}, [{'k': X}, {'b': X}], Pair(X, X), Pair(X, [X, X]), Coord(X, X), [Coord(X, X), X], OD([('b', X)])]


def count(t):
    if t == X:
        return 1
    return sum(count(c) for c in kids(t))


def kids(t):
    if t is None:
        return []
    return [t[k] for k in keys(t)] if isinstance(t, dict) else list(t)


def keys(t):
    """The order in which JAX visits the entries."""
    return list(t) if isinstance(t, OD) else sorted(t)


def rebuilt(t, c):
    return type(t)(*c) if hasattr(t, '_fields') else type(t)(c)


def instantiate(t, a, prefix, start=0):
    n = [start]

    def go(t):
        if t == X:
            n[0] += 1
            return a[f'{prefix}{n[0] - 1}']
        if t is None:
            return None
        if isinstance(t, dict):
            vals = {k: go(t[k]) for k in keys(t)}
            return type(t)((k, vals[k]) for k in t)
        return rebuilt(t, [go(c) for c in t])
    return go(t)


class Refused(Exception):
    """empty: because an empty node met leaves; whether an operator may then drop them is not specified."""

    def __init__(self, empty=False):
        self.empty = empty


def spread(s, t):
    """Reference: for every leaf of t, which leaf of s sits at or above it."""
    n = [0]

    def go(s, t):
        if s == X:
            n[0] += 1
            return [n[0] - 1] * count(t)
        if s is None or len(s) == 0:
            if count(t):
                raise Refused(True)
            return []
        if t == X or t is None or type(s) is not type(t) or len(s) != len(t):
            raise Refused()
        if isinstance(s, dict) and keys(s) != keys(t):
            raise Refused()
        out = []
        for a, b in zip(kids(s), kids(t)):
            out += go(a, b)
        return out
    return go(s, t)


def same_struct(a, b):
    return jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b)


def ambiguous(s, t):
    """An empty node against a different empty node: either answer is defensible."""
    if s == X:
        return False
    if s is None or len(s) == 0:
        return count(t) == 0 and not (type(s) is type(t) and (s is None or len(t) == 0))
    if t == X or t is None or type(s) is not type(t) or len(s) != len(t):
        return False
    return any(ambiguous(a, b) for a, b in zip(kids(s), kids(t)))


def u03(tier):
    out = []
    for si, s in enumerate(TREES):
        ns = count(s)
        targets = [t for t in TREES if not ambiguous(s, t)]
        mt = max(count(t) for t in targets)
        ins = {'code': Inp((), 'i64', ('range', 0, len(targets) - 1), py=True)}
        ins.update({f's{k}': Inp((2,), 'f32', 'any') for k in range(ns)})
        ins.update({f't{k}': Inp((2, k + 1), 'f32', 'any') for k in range(mt)})

        def run(a, s=s, targets=targets):
            t = targets[pick(a['code'], len(targets))]
            S, T = instantiate(s, a, 's'), instantiate(t, a, 't')
            try:
                want = spread(s, t)
            except Refused:
                want = None
            try:
                got = utils.broadcast_pytree_shape(S, T)
            except (RuntimeError, AssertionError, ValueError, TypeError) as e:
                return {'!facts': {f'{s} spreads over {t}': want is None}}
            facts = {f'{s} does not spread over {t}': want is not None}
            out = {}
            if want is not None:
                facts[f'{s} over {t}: the result has the structure of the target'] = same_struct(got, T)
                ls = jax.tree_util.tree_leaves(got)
                facts[f'{s} over {t}: number of leaves'] = len(ls) == len(want)
                if len(ls) == len(want):
                    for k, (g, w) in enumerate(zip(ls, want)):
                        out[f'got{k}'], out[f'want{k}'] = g, a[f's{w}']
            return {**out, '!facts': facts}
        out.append(Case(f'U03:{si}:fp', ins, run, pair_post('each target leaf gets the source leaf at or above it'), maxpaths=2000))
    return out


def pair_post(label, rel=same):
    def post(I, O):
        for k in O:
            if k.startswith('got'):
                w = O['want' + k[3:]]
                if w.shape != O[k].shape:
                    yield f'{label} (shape)', const(False, 'b')
                    continue
                for i in np.ndindex(*w.shape):
                    yield label, rel(O[k][i], w[i])
    return post


# U04 ------------------------------------------------------------------------------------
OPERATORS = {'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'first': lambda x, y: x + 0 * y if False else jnp.where(y > 0, x, x - 1),
             'less': lambda x, y: x < y}
PAIRS = [((2,), (2, 3)), ((2, 3), (2,)), ((2, 2), (2,)), ((2,), (2, 2)), ((), (2, 2)), ((2, 2), ()), ((2,), (2,)),
         ((1,), (1, 2, 2)), ((2, 2), (2, 2, 2)), ((3,), (3, 3)), ((2, 1), (2, 3)), ((), ())]


def left(arr, shape):
    """Reference left broadcast of an object array of terms."""
    x = arr.reshape(arr.shape + (1,) * (len(shape) - arr.ndim)) if arr.ndim else arr
    return np.broadcast_to(x, shape)


def u04(tier):
    out = []
    for on, op in OPERATORS.items():
        for pa, pb in PAIRS:
            def run(a, op=op):
                r = utils.execute_binary_operator(op, {'k': a['x'], 'j': [a['x2']]}, {'k': a['y'], 'j': [a['y2']]}, 'ctx')
                return {'k': r['k'], 'j': r['j'][0]}
            n = max(pa, pb, key=len)
            shape = np.broadcast_shapes(pa + (1,) * (len(n) - len(pa)), pb + (1,) * (len(n) - len(pb))) if pa and pb else n

            def post(I, O, on=on, shape=shape):
                for k, x, y in (('k', 'x', 'y'), ('j', 'x2', 'y2')):
                    A, B = left(I[x], shape), left(I[y], shape)
                    for i in np.ndindex(*shape):
                        u, v = A[i], B[i]
                        want = {'sub': lambda: u - v, 'mul': lambda: u * v, 'first': lambda: If(v > 0, u, u - 1), 'less': lambda: u < v}[on]()
                        yield 'the operator is applied, first operand first, with broadcasting from the left', same(O[k][i], want)
            dt = 'b' if on == 'less' else 'f32'
            ins = {'x': Inp(pa, 'f32', 'fin'), 'y': Inp(pb, 'f32', 'fin'), 'x2': Inp(pa, 'f32', 'fin'), 'y2': Inp(pb, 'f32', 'fin')}
            out.append(Case(f'U04:{on}-{pa}{pb}'.replace(' ', '') + ':fp', ins, run, post, {'k': Out(shape, dt), 'j': Out(shape, dt)}))
    # operands of different dtypes: the operator meets them as they are
    for da, db in (('f16', 'f32'), ('f32', 'f16'), ('i32', 'f32'), ('f32', 'i32'), ('f16', 'i32'), ('b', 'f32'), ('bf16', 'f32'), ('f32', 'bf16'), ('i32', 'i32')):
        for pa, pb in (((2,), (2, 2)), ((2, 2), (2,)), ((2,), (2,)), ((), (2,)), ((2,), ())):
            if tier == 'quick' and (len(pa) + len(pb) + len(da)) % 2:
                continue

            def run1(a, pa=pa, pb=pb, da=da):
                met = []

                def op(x, y):
                    met.append((x.dtype, y.dtype))
                    return x * y
                r = utils.execute_binary_operator(op, [a['x']], [a['y']], 'ctx')[0]
                x, y = a['x'], a['y']
                if pa and pb:
                    x, y = x.reshape(pa + (1,) * (len(pb) - len(pa))), y.reshape(pb + (1,) * (len(pa) - len(pb)))
                w = x * y
                return {'got': r, 'want': w, '!facts': {'the operator meets the dtypes that were given': met == [(a['x'].dtype, a['y'].dtype)],
                                                        'the dtype is that of the operator': r.dtype == w.dtype}}
            out.append(Case(f'U04:dtypes-{da}-{db}-{pa}{pb}'.replace(' ', '') + ':fp', {'x': Inp(pa, da, 'any' if da == 'b' else ('range', -64, 64)), 'y': Inp(pb, db, ('range', -64, 64))},
                            run1, pair_post('the operator applied to the operands as given')))
    # trees of different depth, either operand being the shallow one
    for si, s in enumerate(TREES):
        big = [t for t in TREES if count(t) and count(s)]
        if not big:
            continue
        mt = max(count(t) for t in big)
        ins = {'code': Inp((), 'i64', ('range', 0, len(big) - 1), py=True)}
        ins.update({f's{k}': Inp((2,), 'f32', 'fin') for k in range(count(s))})
        ins.update({f't{k}': Inp((2, k % 2 + 1), 'f32', 'fin') for k in range(mt)})

        def run(a, s=s, big=big):
            t = big[pick(a['code'], len(big))]
            if ambiguous(s, t) or ambiguous(t, s):
                return {'!facts': {}}
            S, T = instantiate(s, a, 's'), instantiate(t, a, 't')
            maps = None
            try:
                w = spread(s, t)
                maps = [(w[k], k) for k in range(len(w))], T
            except Refused as e:
                if e.empty:
                    return {'!facts': {}}
                try:
                    w = spread(t, s)
                    maps = [(k, w[k]) for k in range(len(w))], S
                except Refused as e:
                    if e.empty:
                        return {'!facts': {}}
            try:
                got = utils.execute_binary_operator(lambda x, y: x - y, S, T, 'ctx')
            except Exception as e:
                return {'!facts': {f'{s} - {t} is computed': maps is None}}
            facts = {f'{s} - {t} is refused': maps is not None}
            out = {}
            if maps:
                facts[f'{s} - {t} has the structure of the deeper operand'] = same_struct(got, maps[1])
                ls = jax.tree_util.tree_leaves(got)
                facts[f'{s} - {t}: number of leaves'] = len(ls) == len(maps[0])
                for k, (i, j) in enumerate(maps[0][:len(ls)]):
                    out[f'got{k}'] = ls[k]
                    out[f'want{k}'] = a[f's{i}'][:, None] - a[f't{j}']
            return {**out, '!facts': facts}
        out.append(Case(f'U04:tree{si}:fp', ins, run, pair_post('leaf by leaf, first operand minus second'), maxpaths=2000))
    return out


# U05 ------------------------------------------------------------------------------------
def norm(t):
    """A missing value and a leaf are the same thing here."""
    if t is None or t == X:
        return X
    if isinstance(t, dict):
        return type(t)((k, norm(v)) for k, v in t.items())
    return rebuilt(t, [norm(c) for c in t])


def struct_eq(s, t):
    s, t = norm(s), norm(t)
    if s == X or t == X:
        return s == t
    if type(s) is not type(t) or len(s) != len(t):
        return False
    if isinstance(s, dict) and keys(s) != keys(t):
        return False
    return all(struct_eq(a, b) for a, b in zip(kids(s), kids(t)))


def u05(tier):
    out = []
    for si, s in enumerate(TREES):
        mt = max(count(t) for t in TREES)
        ins = {'code': Inp((), 'i64', ('range', 0, len(TREES) - 1), py=True)}
        ins.update({f's{k}': Inp((2,), 'f32', 'fin') for k in range(count(s))})
        ins.update({f't{k}': Inp((k + 1,), 'f32', 'fin') for k in range(mt)})

        def run(a, s=s):
            t = TREES[pick(a['code'], len(TREES))]
            r = utils.are_pytree_structure_equal(instantiate(s, a, 's'), instantiate(t, a, 't'))
            return {'!facts': {f'structures of {s} and {t} compare as {struct_eq(s, t)}': bool(r) == struct_eq(s, t)}}
        out.append(Case(f'U05:equal{si}:fp', ins, run, lambda I, O: [], maxpaths=2000))
        ins2 = {'code': ins['code']}
        ins2.update({f's{k}': Inp((2,), 'f32', 'fin') for k in range(count(s))})
        ins2.update({f't{k}': Inp((2,), 'f32', 'fin') for k in range(mt)})

        def run2(a, s=s):
            t = TREES[pick(a['code'], len(TREES))]
            S, T = instantiate(s, a, 's'), instantiate(t, a, 't')
            ok = count(s) == count(t)
            try:
                got = utils.merge_pytrees(lambda x, y: x - 2 * y, S, T)
            except Exception:
                return {'!facts': {f'{s} and {t} can be merged': not ok}}
            facts = {f'{s} and {t} cannot be merged': ok}
            out = {}
            if ok:
                facts[f'{s} with {t}: the result has the structure of the first'] = same_struct(got, S)
                for k, g in enumerate(jax.tree_util.tree_leaves(got)):
                    out[f'got{k}'], out[f'want{k}'] = g, a[f's{k}'] - 2 * a[f't{k}']
            return {**out, '!facts': facts}
        out.append(Case(f'U05:merge{si}:fp', ins2, run2, pair_post('leaves are merged pairwise, in order'), maxpaths=2000))
    return out


# U06 ------------------------------------------------------------------------------------
def u06(tier):
    out = []
    finite = lambda x: mk('lt', mk('abs', x), const(np.inf, x.dt))
    for si, s in enumerate(TREES):
        n = count(s)
        for exact in (True, False) if tier == 'quick' and si % 3 else (True, False, None):
            ins = {f's{k}': Inp((2,), 'f32', 'fin') for k in range(n)}
            ins.update({f't{k}': Inp((2,), 'f32', 'fin') for k in range(n)})

            def run(a, s=s, exact=exact):
                S, T = instantiate(s, a, 's'), instantiate(s, a, 't')
                return {'eq': jnp.asarray(bool(utils.are_pytrees_equal(S, T, **({} if exact is None else {'use_allclose': not exact}))))}

            def post(I, O, n=n, exact=exact):
                ok, far, near = [], [], []
                for k in range(n):
                    for i in range(2):
                        x, y = I[f's{k}'][i], I[f't{k}'][i]
                        ok.append(mk('eq', x, y))
                        near.append(Or(mk('eq', x, y), And(mk('le', const(1, 'f32'), mk('abs', y)), mk('eq', x, y * const(1 + 2 ** -18, 'f32')))))
                        far.append(mk('lt', mk('abs', x) * const(0.01, 'f32') + const(1e-3, 'f32'), mk('abs', x - y)))
                r = O['eq'].reshape(-1)[0]
                if exact:
                    yield 'exact comparison is equality of every entry of every leaf', Iff(r, And(ok))
                else:
                    yield 'equal trees compare as close', Implies(And(ok), r)
                    yield 'trees which differ by four parts in a million compare as close', Implies(And(near), r)
                    yield 'trees which differ clearly somewhere do not compare as close', Implies(Or(far), Not(r))
            out.append(Case(f'U06:same{si}-{exact}:re', ins, run, post, mode='re', jit_replay=False, maxpaths=600, timeout=10))
        if 1 <= n <= 4:
            for exact in (True, False):
                def run4(a, s=s, exact=exact):
                    return {'eq': jnp.asarray(bool(utils.are_pytrees_equal(instantiate(s, a, 's'), instantiate(s, a, 't'), use_allclose=not exact)))}

                def post4(I, O, n=n, exact=exact):
                    pairs = [(I[f's{k}'][i], I[f't{k}'][i]) for k in range(n) for i in range(2)]
                    r = O['eq'].reshape(-1)[0]
                    if exact:
                        yield 'exact comparison is equality of every entry, NaN equal to nothing', Iff(r, And([mk('eq', x, y) for x, y in pairs]))
                    else:
                        yield 'trees which are equal, infinities included, compare as close', Implies(And([mk('eq', x, y) for x, y in pairs]), r)
                        yield 'a NaN is not close to anything', Implies(Or([Or(ir.isnan(x), ir.isnan(y)) for x, y in pairs]), Not(r))
                        for x, y in pairs:
                            yield 'a finite entry is not close to an infinite one', Implies(Not(Iff(finite(x), finite(y))), Not(r))
                wild = {f'{p}{k}': Inp((2,), 'f32', 'wild') for p in 'st' for k in range(n)}
                out.append(Case(f'U06:wild{si}-{exact}:fp', wild, run4, post4, jit_replay=False, maxpaths=600))
        ts = [t for t in TREES if not same_struct_spec(s, t)]
        ins = {'code': Inp((), 'i64', ('range', 0, len(ts) - 1), py=True)}
        ins.update({f's{k}': Inp((2,), 'f32', 'fin') for k in range(n)})
        ins.update({f't{k}': Inp((2,), 'f32', 'fin') for k in range(max(count(t) for t in ts))})

        def run2(a, s=s, ts=ts):
            t = ts[pick(a['code'], len(ts))]
            r = utils.are_pytrees_equal(instantiate(s, a, 's'), instantiate(t, a, 't'))
            return {'eq': jnp.asarray(bool(r))}
        out.append(Case(f'U06:differ{si}:fp', ins, run2, lambda I, O: [('trees of different structure are not equal', Not(O['eq'].reshape(-1)[0]))],
                        jit_replay=False, maxpaths=2000))
    for sa, sb in (((2,), (1,)), ((2,), ()), ((2, 2), (2,)), ((1, 2), (2, 1)), ((2,), (2, 1))):
        ins = {'x': Inp(sa, 'f32', 'fin'), 'y': Inp(sb, 'f32', 'fin')}
        out.append(Case(f'U06:shape{sa}{sb}'.replace(' ', '') + ':fp', ins,
                        lambda a: {'eq': jnp.asarray(bool(utils.are_pytrees_equal([a['x']], [a['y']])))},
                        lambda I, O: [('tensors of different shapes are not equal', Not(O['eq'].reshape(-1)[0]))], jit_replay=False))
    for dt, dom in (('i32', ('range', -2 ** 31, 2 ** 31 - 1)), ('i64', ('range', -2 ** 62, 2 ** 62)), ('u32', ('range', 0, 2 ** 32 - 1)), ('f64', 'fin'), ('f16', 'fin'), ('bf16', 'fin'), ('b', 'any')):
        def run5(a):
            return {'eq': jnp.asarray(bool(utils.are_pytrees_equal({'k': [a['x']]}, {'k': [a['y']]}, use_allclose=False)))}

        def post5(I, O):
            yield 'exact comparison is equality of every entry', Iff(O['eq'].reshape(-1)[0], And([same(I['x'][i], I['y'][i]) for i in range(2)]))
        out.append(Case(f'U06:exact-{dt}:fp', {'x': Inp((2,), dt, dom), 'y': Inp((2,), dt, dom)}, run5, post5, jit_replay=False, x64='64' in dt))
    KINDS = [lambda v: jnp.asarray(np.array([v, 1.0], np.float32)), lambda v: np.array([v, 1.0], np.float32), lambda v: float(v), lambda v: int(v), lambda v: str(v), lambda v: bool(v == 5.0)]

    def run3(a):
        """Leaves of whatever kind: other values are never equal, the same leaf always is."""
        i, j, u, v = (pick(a[k], n) for k, n in (('i', len(KINDS)), ('j', len(KINDS)), ('u', 2), ('v', 2)))
        x, y = KINDS[i]([2.0, 5.0][u]), KINDS[j]([2.0, 5.0][v])
        r = bool(utils.are_pytrees_equal({'k': [jnp.ones(2), x]}, {'k': [jnp.ones(2), y]}))
        return {'!facts': {f'{x!r} and {y!r} differ': not r if u != v else True, f'{x!r} is equal to itself': r if (i, u) == (j, v) else True}}
    out.append(Case('U06:kinds:fp', {'x': Inp((), 'f32', 'fin')} | {k: Inp((), 'i64', ('range', 0, n - 1), py=True) for k, n in (('i', len(KINDS)), ('j', len(KINDS)), ('u', 2), ('v', 2))},
                    run3, lambda I, O: [], maxpaths=600))
    return out


def same_struct_spec(s, t):
    return same_struct(s, t)


# U07 ------------------------------------------------------------------------------------
def u07(tier):
    """jit_and_checkify(f): f's results, or an exception exactly when one of f's checks fails."""
    from jax.experimental import checkify
    from src.jax_act.core.utils import jit_and_checkify
    chk = lambda c, m='no': checkify.check(c, m)

    def plain(x, y):
        return x + y

    def one(x, y):
        chk(jnp.all(x >= 0))
        return x + y

    def two(x, y):
        chk(jnp.all(x >= 0), 'first')
        z = x * y
        chk(jnp.all(z <= 1), 'second')
        return z

    def late(x, y):
        z = x + y
        chk(jnp.all(y < 2), 'late')
        return z

    def branch(x, y):
        def f(x):
            chk(jnp.all(x >= 0))
            return x * 2
        return jax.lax.cond(y[0] > 0, f, lambda x: x, x)

    def loop(x, y):
        def f(k, x):
            chk(jnp.all(x <= 8))
            return x + y
        return jax.lax.fori_loop(0, 3, f, x)

    def inner(x, y):
        @jax.jit
        def f(x):
            chk(jnp.all(x >= 0))
            return x - y
        return f(x)

    def tests(n, x, y):
        """Does a check fail?"""
        any_ = lambda f: Or([f(i) for i in range(2)])
        if n == 'plain':
            return const(False, 'b')
        if n in ('one', 'inner'):
            return any_(lambda i: Not(const(0, 'f32') <= x[i]))
        if n == 'two':
            return Or(any_(lambda i: Not(const(0, 'f32') <= x[i])), any_(lambda i: Not(x[i] * y[i] <= 1)))
        if n == 'late':
            return any_(lambda i: Not(y[i] < const(2, 'f32')))
        if n == 'branch':
            return And(const(0, 'f32') < y[0], any_(lambda i: Not(const(0, 'f32') <= x[i])))
        return any_(lambda i: Or(Not(x[i] <= 8), Not(x[i] + y[i] <= 8), Not((x[i] + y[i]) + y[i] <= 8)))

    def value(n, x, y, i):
        return {'plain': lambda: x[i] + y[i], 'one': lambda: x[i] + y[i], 'two': lambda: x[i] * y[i], 'late': lambda: x[i] + y[i],
                'branch': lambda: ir.If(const(0, 'f32') < y[0], x[i] * 2, x[i]), 'loop': lambda: ((x[i] + y[i]) + y[i]) + y[i],
                'inner': lambda: x[i] - y[i]}[n]()
    fns = dict(plain=plain, one=one, two=two, late=late, branch=branch, loop=loop, inner=inner)
    ways = {'positional': lambda w, x, y: w(x, y), 'keyword': lambda w, x, y: w(x, y=y), 'keywords': lambda w, x, y: w(y=y, x=x)}
    out = []
    ins = lambda *ns: {n: Inp((2,), 'f32', 'any') for n in ns}
    for n, f in fns.items():
        for way, go in ways.items():
            def run(a, f=f, go=go):
                r = go(jit_and_checkify(f), a['x'], a['y'])
                return {'r': r, '!facts': {'an array': r.shape == (2,)}}

            def post(I, O, n=n):
                for i in range(2):
                    yield 'the result of the function comes back', same(O['r'][i], value(n, I['x'], I['y'], i))
            out.append(Case(f'U07:{n}-{way}:fp', ins('x', 'y'), run, post, raises=lambda I, n=n: tests(n, I['x'], I['y']), jit_replay=False, traces=True))

        def run2(a, f=f):
            """One wrapper, called twice: a failure must not be remembered, nor forgotten."""
            w = jit_and_checkify(f)
            try:
                first = w(a['x'], a['y'])
                failed = False
            except checkify.JaxRuntimeError:
                first, failed = jnp.zeros(2), True
            r = w(a['u'], a['v'])
            return {'first': first, 'failed': jnp.asarray(failed), 'r': r}

        def post2(I, O, n=n):
            bad = tests(n, I['x'], I['y'])
            yield 'the first call fails exactly when one of its checks does', Iff(O['failed'].reshape(-1)[0], bad)
            for i in range(2):
                yield 'the first result', Or(bad, same(O['first'][i], value(n, I['x'], I['y'], i)))
                yield 'the second result', same(O['r'][i], value(n, I['u'], I['v'], i))
        out.append(Case(f'U07:{n}-twice:fp', ins('x', 'y', 'u', 'v'), run2, post2, raises=lambda I, n=n: tests(n, I['u'], I['v']), jit_replay=False, traces=True))

    def run3(a):
        def f(t, k=None):
            chk(jnp.all(t['b'][0] >= 0))
            return {'s': (t['a'] * k['w'], [t['b'][0]]), 'n': None}
        r = jit_and_checkify(f)({'a': a['x'], 'b': (a['y'],)}, k={'w': a['u']})
        facts = {'the tree of results comes back': jax.tree_util.tree_structure(r) == jax.tree_util.tree_structure({'s': (0, [0]), 'n': None})}
        ls = jax.tree_util.tree_leaves(r)
        return {'p': ls[0], 'q': ls[1], '!facts': facts}

    def post3(I, O):
        for i in range(2):
            yield 'leaf 0', same(O['p'][i], I['x'][i] * I['u'][i])
            yield 'leaf 1', same(O['q'][i], I['y'][i])
    def run5(a):
        """Functions of one name and one code, wrapped one after the other; one wrapper for inputs of several kinds."""
        def make(k, low):
            def f(x, y=0.0):
                chk(jnp.all(x >= low))
                return x * k + y
            return f
        fs = [make(2.0, -1e30), make(a['y'], -2e30), make(3.0, -1e30)]
        ws = [jit_and_checkify(f) for f in fs]
        w, g = ws[0], fs[0]
        got = [w(a['x']) for w in ws] + [ws[1](a['x'])]
        want = [f(a['x']) for f in fs] + [fs[1](a['x'])]
        for args in ((a['x'][0],), (a['x'][None],), (a['x'].astype(jnp.float16),), (jnp.stack([a['x'], a['y']]), 1.0), (2.0,), (3, 4), (np.ones(2, np.float32), a['x'])):
            with_check, plain_ = jit_and_checkify(make(0.5, -1e30)), make(0.5, -1e30)
            got += [w(*args), with_check(*args)]
            want += [g(*args), plain_(*args)]
        facts = {f'{k}: shape and dtype': x.shape == jnp.shape(y) and x.dtype == jnp.result_type(y) for k, (x, y) in enumerate(zip(got, want))}
        out = {'!facts': facts}
        for k, (x, y) in enumerate(zip(got, want)):
            out[f'got{k}'], out[f'want{k}'] = x, jnp.asarray(y)
        return out
    out.append(Case('U07:several:fp', ins('x', 'y') | {n: Inp((2,), 'f32', ('range', -64, 64)) for n in 'xy'}, run5, pair_post('each wrapped function gives what it gives'),
                    jit_replay=False, traces=True, structural=True))

    def run6(a):
        """The same code with another bound: each wrapper raises for its own."""
        def make(low):
            def f(x):
                chk(jnp.all(x >= low))
                return x
            return f
        loose, tight = jit_and_checkify(make(0.0)), jit_and_checkify(make(1.0))
        out = {}
        for n, w in (('loose', loose), ('tight', tight), ('again', loose)):
            try:
                w(a['x'])
                out[n] = jnp.asarray(False)
            except checkify.JaxRuntimeError:
                out[n] = jnp.asarray(True)
        return out

    def post6(I, O):
        for n, low in (('loose', 0), ('tight', 1), ('again', 0)):
            yield f'{n}: raised exactly when its own check fails', Iff(O[n].reshape(-1)[0], Or([Not(const(low, 'f32') <= I['x'][i]) for i in range(2)]))
    out.append(Case('U07:own-checks:fp', ins('x'), run6, post6, jit_replay=False, traces=True))
    def run8(a):
        """Methods, partials, callable objects and library functions are functions, too."""
        import functools

        class Scale:
            def __init__(self, k, low):
                self.k, self.low = k, low

            def run(self, x, y=0.0):
                if self.low is not None:
                    chk(jnp.all(x >= self.low))
                return self.k * x + y

            def __call__(self, x):
                return self.run(x) - 1

            @classmethod
            def of(cls, x):
                return cls(5.0, -1e30).run(x)

            @staticmethod
            def plain(x):
                return x * 7

            @classmethod
            def bare(cls, x):
                return cls(5.0, None).run(x)

        def functions(low, of):
            one, two = Scale(2.0, low), Scale(a['y'], low)
            return [one.run, two.run, one, two, functools.partial(one.run, y=a['y']), functools.partial(two.run, a['x']), functools.partial(one.run), of, Scale.plain,
                    jnp.negative, jax.jit(one.run), jax.jit(two.run), lambda x: one.run(x), lambda x: two.run(x), jax.vmap(jnp.sin), jnp.sum, functools.partial(jnp.sum, axis=0)]
        fs, plain = functions(-1e30, Scale.of), functions(None, Scale.bare)
        sure = lambda f: isinstance(f, functools.partial) and len(f.args)
        call = lambda f, g: g() if sure(f) else g(a['x'])
        ws = [jit_and_checkify(f) for f in fs]
        return {f'got{k}': call(f, w) for k, (f, w) in enumerate(zip(fs, ws))} | {f'want{k}': call(f, f) for k, f in enumerate(plain)}
    out.append(Case('U07:callables:fp', ins('x', 'y') | {n: Inp((2,), 'f32', ('range', -64, 64)) for n in 'xy'}, run8, pair_post('each wrapped callable gives what it gives'),
                    jit_replay=False, traces=True, structural=True))
    for n, nothing in (('none', lambda x: None), ('empty', lambda x: {'a': [], 'b': ()}), ('leafless', lambda x: (None, [None])), ('python', lambda x: 3), ('one', lambda x: {'r': x})):
        for way in ('called', 'closed'):
            def run7(a, nothing=nothing, way=way):
                def f(x):
                    chk(jnp.all(x >= 0))
                    return nothing(x)
                r = jit_and_checkify(f)(a['x']) if way == 'called' else jit_and_checkify(lambda: f(a['x']))()
                want = nothing(a['x'])
                return {f'r{k}': jnp.ravel(x) for k, x in enumerate(jax.tree_util.tree_leaves(r))} | {
                    'x': a['x'], '!facts': {'the result of the function comes back': jax.tree_util.tree_structure(r) == jax.tree_util.tree_structure(want)}}

            def post7(I, O, n=n):
                for k in range(2 if n == 'one' else 1 if n == 'python' else 0):
                    yield 'the value comes back', same(O['r0'][k], I['x'][k]) if n == 'one' else mk('same', ir.conv(O['r0'][0], 'i64'), const(3, 'i64'))
            out.append(Case(f'U07:result-{n}-{way}:fp', ins('x'), run7, post7, raises=lambda I: Or([Not(const(0, 'f32') <= I['x'][i]) for i in range(2)]),
                            jit_replay=False, traces=True))
    out.append(Case('U07:trees:fp', ins('x', 'y', 'u'), run3, post3, raises=lambda I: Or([Not(const(0, 'f32') <= I['y'][i]) for i in range(2)]), jit_replay=False, traces=True))
    return out
