"""jaxpr -> terms: symbolic execution of the compiler IR of the code under test.

Arrays are numpy object arrays of ir terms.  Data-movement primitives are not
re-implemented: they are run by JAX itself on arrays of element indices, which yields
exactly which operand element each result element is.
"""
import functools
import numpy as np
import jax
from jax import core
from jax import numpy as jnp
from . import ir
from .ir import mk, const, Unsupported, tag, np_of

COVER = {}          # primitive -> times encoded


class Ctx:
    def __init__(self, unroll=8):
        self.unroll = unroll
        self.obligations = []     # (label, term) which must hold: unwinding assertions
        self.prims = 0


def to_terms(x):
    """A concrete array (or an object array of terms) as an object array of terms."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    a = np.asarray(x)
    if hasattr(x, 'dtype') and a.dtype != np.dtype(x.dtype):
        a = a.astype(x.dtype)
    t = tag(a.dtype)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = const(a[i], t)
    return out


def sym(name, shape, dt):
    out = np.empty(tuple(shape), dtype=object)
    for i in np.ndindex(*shape):
        out[i] = ir.var(name + ''.join(f'_{k}' for k in i), dt)
    return out


def obj(x):
    if isinstance(x, np.ndarray):
        return x
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def ew(f, *arrs):
    """Elementwise with numpy broadcasting (jaxprs only need equal shapes or scalars)."""
    arrs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[a[i] for a in arrs])
    return out


STRUCT = {'reshape', 'broadcast_in_dim', 'squeeze', 'expand_dims', 'transpose', 'rev', 'slice', 'concatenate',
          'gather', 'dynamic_slice', 'dynamic_update_slice', 'pad', 'copy', 'copy_p', 'device_put', 'stop_gradient',
          'optimization_barrier', 'split', 'select_and_gather_add', 'sharding_constraint', 'real', 'reduce_precision_'}
INDEX_OPERANDS = {'gather': (1,), 'dynamic_slice': None, 'dynamic_update_slice': None}


def structural(eqn, ins):
    name = eqn.primitive.name
    if name in ('dynamic_slice', 'dynamic_update_slice'):
        first = 1 if name == 'dynamic_slice' else 2
        size = eqn.params['slice_sizes'] if first == 1 else ins[1].shape
        for k in range(first, len(ins)):
            t = ins[k].reshape(-1)[0]
            if t.op != 'const':         # the start is clamped, so these are all the possible ones
                top = ins[0].shape[k - first] - size[k - first]
                out = None
                for v in range(top, -1, -1):
                    fixed = list(ins)
                    fixed[k] = to_terms(np.array(v, dtype=np_of(t.dt)))
                    r = structural(eqn, fixed)
                    out = r if out is None else [merge(mk('le', t, const(v, t.dt)), x, y) for x, y in zip(r, out)]
                return out
    if name == 'dynamic_slice':
        data, idx = [0], list(range(1, len(ins)))
    elif name == 'dynamic_update_slice':
        data, idx = [0, 1], list(range(2, len(ins)))
    elif name == 'gather':
        data, idx = [0], [1]
    else:
        data, idx = list(range(len(ins))), []
    pool, args = [], [None] * len(ins)
    for k in data:
        n = ins[k].size
        base = len(pool)
        args[k] = jnp.asarray(np.arange(base, base + n, dtype=np.int32).reshape(ins[k].shape))
        pool += list(ins[k].reshape(-1))
    for k in idx:
        flat = ins[k].reshape(-1)
        if any(t.op != 'const' for t in flat):
            raise Unsupported(f"{name} with a symbolic index")
        dt = eqn.invars[k].aval.dtype
        args[k] = jnp.asarray(np.array([int(t.aux) for t in flat]).reshape(ins[k].shape), dtype=dt)
    params = dict(eqn.params)
    if name == 'gather':
        params['fill_value'] = -1
    with jax.ensure_compile_time_eval():
        res = eqn.primitive.bind(*args, **params)
    res = list(res) if eqn.primitive.multiple_results else [res]
    outs = []
    for r in res:
        r = np.asarray(r)
        o = np.empty(r.shape, dtype=object)
        for i in np.ndindex(*r.shape):
            if r[i] < 0 and name == 'gather' and ir.is_float(odt(eqn)):
                fv = eqn.params.get('fill_value')
                o[i] = const(np.nan if fv is None else fv, odt(eqn))      # an index out of bounds
                continue
            if r[i] < 0 or r[i] >= len(pool):
                raise Unsupported(f"{name} out of bounds")
            o[i] = pool[int(r[i])]
        outs.append(o)
    return outs


def reduce_with(f, unit, x, axes):
    axes = tuple(sorted(axes))
    keep = [d for d in range(x.ndim) if d not in axes]
    y = np.transpose(x, keep + list(axes)).reshape([x.shape[d] for d in keep] + [int(np.prod([x.shape[d] for d in axes], dtype=int))])
    out = np.empty(y.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        acc = unit
        for e in y[i]:
            acc = e if acc is None else f(acc, e)
        if acc is None:
            raise Unsupported('empty reduction')
        out[i] = acc
    return out


UNARY_UF = {'exp', 'log', 'log1p', 'expm1', 'tanh', 'logistic', 'sin', 'cos', 'sqrt', 'rsqrt', 'cbrt', 'erf',
            'erf_inv', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'lgamma', 'digamma'}
BIN = {'add': 'add', 'add_any': 'add', 'sub': 'sub', 'mul': 'mul', 'div': 'div', 'max': 'max', 'min': 'min',
       'rem': 'rem', 'lt': 'lt', 'le': 'le', 'eq': 'eq', 'ne': 'ne'}


CALLS = {'pjit', 'closed_call', 'core_call', 'remat', 'checkpoint', 'custom_jvp_call', 'custom_vjp_call',
         'custom_vjp_call_jaxpr', 'xla_call', 'remat2', 'core_closed_call', 'custom_lin'}


def inner(p):
    for k in ('jaxpr', 'call_jaxpr', 'fun_jaxpr'):
        if k in p:
            return p[k]
    raise Unsupported(f'no inner jaxpr in {list(p)}')


def closed(j):
    return j if isinstance(j, core.ClosedJaxpr) else core.ClosedJaxpr(j, ())


class Poison:
    """A value outside the encoding.  Harmless unless a result depends on it."""

    def __init__(self, why):
        self.why = why


def constant(c):
    try:
        return to_terms(c)
    except Unsupported as e:
        return Poison(str(e))


def run_closed(cj, ins, ctx):
    cj = closed(cj)
    return run(cj.jaxpr, [constant(c) for c in cj.consts], ins, ctx)


def merge(c, a, b):
    for x in (a, b):
        if isinstance(x, Poison):
            return x
    return ew(lambda x, y: mk('ite', c, x, y), a, b)


def merge_by(pred, a, b):
    """merge with one condition per leading index."""
    if pred.ndim == 0:
        return merge(pred[()], a, b)
    for x in (a, b):
        if isinstance(x, Poison):
            return x
    return ew(lambda c, x, y: mk('ite', c, x, y), np.broadcast_to(pred.reshape(pred.shape + (1,) * (a.ndim - pred.ndim)), a.shape), a, b)


def run(jaxpr, consts, ins, ctx):
    env = {}

    def read(v):
        if isinstance(v, core.Literal):
            return constant(np.asarray(v.val, dtype=v.aval.dtype))
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    for v, a in zip(jaxpr.invars, ins):
        env[v] = a
    for eqn in jaxpr.eqns:
        name = eqn.primitive.name
        COVER[name] = COVER.get(name, 0) + 1
        ctx.prims += 1
        x = [read(v) for v in eqn.invars]
        bad = next((o for o in x if isinstance(o, Poison)), None)
        try:
            if bad and name not in CALLS:
                raise Unsupported(bad.why)
            outs = step(name, eqn, x, ctx)
        except Unsupported as e:
            outs = [Poison(str(e))] * len(eqn.outvars)
        for v, o in zip(eqn.outvars, outs):
            if isinstance(o, Poison):
                env[v] = o
                continue
            if tuple(o.shape) != tuple(v.aval.shape):
                raise Unsupported(f'{name}: shape {o.shape} is not {v.aval.shape}')
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def odt(eqn, k=0):
    return tag(eqn.outvars[k].aval.dtype)


SCATTER = {'scatter': None, 'scatter-add': 'add', 'scatter_add': 'add', 'scatter-mul': 'mul', 'scatter_mul': 'mul',
           'scatter-min': 'min', 'scatter_min': 'min', 'scatter-max': 'max', 'scatter_max': 'max'}
MAXINDEX = 64       # how many values a symbolic index may take


def by_index(name, eqn, x, k, tops):
    """A symbolic index array: every value it can have, the out-of-range ones included, is tried and merged.
    tops(j): the largest value in range of the j-th entry of an index vector."""
    flat = x[k].reshape(-1)
    at = next(j for j, t in enumerate(flat) if t.op != 'const')
    t, top = flat[at], tops(at)
    if sum(u.op != 'const' for u in flat) > 4 or top + 3 > MAXINDEX:
        unsup(f'{name} with many symbolic indices')
    out = None
    for v in list(range(top + 1, -1, -1)) + [-1]:
        if v < 0 and t.dt[0] == 'u':
            continue
        fixed = flat.copy()
        fixed[at] = const(v, t.dt)
        r = indexed(name, eqn, [*x[:k], fixed.reshape(x[k].shape), *x[k + 1:]])
        if out is None:
            out = r
        else:
            c = mk('lt', t, const(0, t.dt)) if v < 0 else mk('le', t, const(v, t.dt))
            out = [merge(c, a, b) for a, b in zip(r, out)]
    return out


def indexed(name, eqn, x):
    """gather and the scatters"""
    p = eqn.params
    dn = p['dimension_numbers']
    dims = dn.start_index_map if name == 'gather' else dn.scatter_dims_to_operand_dims
    if any(t.op != 'const' for t in x[1].reshape(-1)):
        width = x[1].shape[-1]
        return by_index(name, eqn, x, 1, lambda at: x[0].shape[dims[at % width]])
    if name == 'gather':
        return structural(eqn, x)
    # where every entry of the updates goes: one run of the primitive per entry, on a one-hot update
    operand, idx, upd = x
    op = SCATTER[name]
    zero = jnp.zeros(operand.shape, jnp.int32)
    ids = jnp.asarray(np.array([int(t.aux) for t in idx.reshape(-1)]).reshape(idx.shape), dtype=eqn.invars[1].aval.dtype)
    out = operand.copy()
    with jax.ensure_compile_time_eval():
        for k, u in zip(np.ndindex(*upd.shape), upd.reshape(-1)):
            one = np.zeros(upd.shape, np.int32)
            one[k] = 1
            hit = jax.lax.scatter_add(zero, ids, jnp.asarray(one), dn, indices_are_sorted=p['indices_are_sorted'],
                                      unique_indices=p['unique_indices'], mode=p['mode'])
            for j in map(tuple, np.argwhere(np.asarray(hit))):
                d = out[j].dt
                o = {'add': 'or', 'mul': 'and', 'max': 'or', 'min': 'and'}.get(op) if d == 'b' else op
                out[j] = u if op is None else mk(o, out[j], u)
    return [out]


def step(name, eqn, x, ctx):
    p = eqn.params
    if name == 'gather' or name in SCATTER:
        return indexed(name, eqn, x)
    if name in STRUCT:
        return structural(eqn, x)
    if name in BIN:
        dt = tag(eqn.invars[0].aval.dtype)
        op = BIN[name]
        if dt == 'b' and op in ('eq', 'ne', 'max', 'min', 'add', 'mul'):
            op = {'eq': 'same', 'ne': 'xor', 'max': 'or', 'min': 'and', 'add': 'or', 'mul': 'and'}[op]
        elif ir.is_int(dt) and op == 'eq':
            op = 'same'
        return [ew(lambda a, b: mk(op, a, b), x[0], x[1])]
    if name in ('lt_to', 'le_to'):      # the total order: -0 before 0, NaN last
        def before(a, b):
            if not ir.is_float(a.dt):
                return mk('lt', a, b)
            z = const(0.0, a.dt)
            return ir.Or(mk('lt', a, b), ir.And(ir.isnan(b), ir.Not(ir.isnan(a))),
                         ir.And(mk('ident', a, const(-0.0, a.dt)), mk('ident', b, z)))
        return [ew(before, *x) if name == 'lt_to' else ew(lambda a, b: ir.Not(before(b, a)), *x)]
    if name == 'gt':
        return [ew(lambda a, b: mk('lt', b, a), x[0], x[1])]
    if name == 'ge':
        return [ew(lambda a, b: mk('le', b, a), x[0], x[1])]
    if name in ('and', 'or', 'xor', 'not'):
        if odt(eqn) != 'b':
            if name == 'not':
                return [ew(lambda a: mk('ixor', a, const(-1 if a.dt[0] == 'i' else 2 ** int(a.dt[1:]) - 1, a.dt)), x[0])]
            return [ew(lambda a, b: mk('i' + name, a, b), *x)]
        return [ew(lambda *a: mk(name, *a), *x)]
    if name in ('neg', 'abs', 'sign', 'floor', 'ceil'):
        return [ew(lambda a: mk(name, a), x[0])]
    if name == 'round' and int(p['rounding_method']) == 1:
        return [ew(lambda a: mk('rint', a), x[0])]
    if name == 'is_finite':
        return [ew(ir.finite, x[0])]
    if name == 'integer_pow':
        y = p['y']
        if y < 1:
            one = const(1, odt(eqn))
            return [ew(lambda a: mk('div', one, functools.reduce(lambda s, t: mk('mul', s, t), [a] * -y)) if y else one, x[0])]
        return [ew(lambda a: functools.reduce(lambda s, t: mk('mul', s, t), [a] * y), x[0])]
    if name == 'square':
        return [ew(lambda a: mk('mul', a, a), x[0])]
    if name in UNARY_UF:
        return [ew(lambda a: ir.raw('uf', (a,), odt(eqn), name), x[0])]
    if name in ('pow', 'atan2'):
        return [ew(lambda a, b: ir.raw('uf', (a, b), odt(eqn), name), *x)]
    if name == 'convert_element_type':
        d = odt(eqn)
        if ir.is_int(d) and ir.is_float(tag(eqn.invars[0].aval.dtype)):     # XLA saturates
            lo, hi = np.iinfo(ir.np_of(d)).min, np.iinfo(ir.np_of(d)).max

            def sat(a):
                if a.op == 'const':
                    return const(0 if a.aux != a.aux else int(min(max(float(a.aux), lo), hi)), d)
                return mk('ite', ir.isnan(a), const(0, d), mk('ite', mk('le', a, const(float(lo), a.dt)), const(lo, d), mk(
                    'ite', mk('le', const(float(hi) + (d[1:] in ('8', '16')), a.dt), a), const(hi, d), mk('conv', a, dt=d))))
            return [ew(sat, x[0])]
        return [ew(lambda a: mk('conv', a, dt=d), x[0])]
    if name == 'reduce_precision':
        return [x[0]] if (p['exponent_bits'], p['mantissa_bits']) == {'f32': (8, 23), 'f16': (5, 10), 'bf16': (8, 7), 'f64': (11, 52)}[odt(eqn)] else unsup(name)
    if name == 'reduce':
        n = len(x) // 2
        if n != 1:
            unsup('reduction of several operands')
        f = lambda a, b: run_closed(p['jaxpr'], [np.array(a, dtype=object), np.array(b, dtype=object)], ctx)[0][()]
        return [reduce_with(f, x[1][()], x[0], p['dimensions'])]
    if name == 'reduce_xor' and odt(eqn) == 'b':
        return [reduce_with(lambda a, b: mk('xor', a, b), const(False, 'b'), x[0], p['axes'])]
    if name == 'exp2':
        return [ew(lambda a: ir.raw('uf', (a,), odt(eqn), name), x[0])]
    if name == 'select_n':
        c, *cases = x
        if tag(eqn.invars[0].aval.dtype) == 'b' and len(cases) == 2:
            return [ew(lambda s, f, t: mk('ite', s, t, f), c, cases[0], cases[1])]
        out = cases[-1]
        d = tag(eqn.invars[0].aval.dtype)
        for k in range(len(cases) - 2, -1, -1):
            out = ew(lambda s, a, b: mk('ite', mk('same', s, const(k, d)), a, b), c, cases[k], out)
        return [out]
    if name == 'clamp':
        return [ew(lambda lo, v, hi: mk('min', mk('max', v, lo), hi), *x)]
    if name in ('reduce_and', 'reduce_or', 'reduce_max', 'reduce_min', 'reduce_sum', 'reduce_prod'):
        d = odt(eqn)
        op, unit = {'reduce_and': ('and', const(True, 'b')), 'reduce_or': ('or', const(False, 'b')),
                    'reduce_max': ('max', None), 'reduce_min': ('min', None),
                    'reduce_sum': ('add', None), 'reduce_prod': ('mul', None)}[name]
        if d == 'b' and op in ('max', 'min'):
            op = {'max': 'or', 'min': 'and'}[op]
        if unit is None and x[0].size == 0 and d == 'b':
            unit = const(op == 'and', d)
        if unit is None and x[0].size == 0:
            top = (float('inf'), -float('inf')) if ir.is_float(d) else (np.iinfo(ir.np_of(d)).max, np.iinfo(ir.np_of(d)).min)
            unit = const({'add': 0, 'mul': 1, 'min': top[0], 'max': top[1]}[op], d)
        return [reduce_with(lambda a, b: mk(op, a, b), unit, x[0], p['axes'])]
    if name in ('argmax', 'argmin'):
        d = odt(eqn)
        pair = np.empty(x[0].shape, dtype=object)
        for i in np.ndindex(*pair.shape):
            pair[i] = (const(i[p['axes'][0]], d), x[0][i])

        def better(s, t):           # the first of equal values wins, and a NaN wins over everything
            over = mk('lt', s[1], t[1]) if name == 'argmax' else mk('lt', t[1], s[1])
            if ir.is_float(s[1].dt):
                over = ir.And(ir.Not(ir.isnan(s[1])), ir.Or(ir.isnan(t[1]), over))
            return (mk('ite', over, t[0], s[0]), mk('ite', over, t[1], s[1]))
        r = reduce_with(better, None, pair, p['axes'])
        return [ew(lambda t: t[0], r)]
    if name == 'sort':
        return sort(x, p['dimension'], p['num_keys'])
    if name == 'iota':
        r = np.asarray(jax.lax.broadcasted_iota(p['dtype'], p['shape'], p['dimension']))
        return [to_terms(r)]
    if name == 'dot_general':
        return [dot_general(x[0], x[1], p['dimension_numbers'])]
    if name in ('cumsum', 'cumprod', 'cummax', 'cummin'):
        op = {'cumsum': 'add', 'cumprod': 'mul', 'cummax': 'max', 'cummin': 'min'}[name]
        a = np.moveaxis(x[0], p['axis'], 0)
        if p.get('reverse'):
            a = a[::-1]
        o = np.empty(a.shape, dtype=object)
        for k in range(a.shape[0]):
            o[k] = a[k] if k == 0 else ew(lambda s, t: mk(op, s, t), *map(obj, (o[k - 1], a[k])))[()]
        if p.get('reverse'):
            o = o[::-1]
        return [np.moveaxis(o, 0, p['axis'])]
    if name in CALLS:
        return run_closed(inner(p), x, ctx)
    if name == 'cond':
        idx, *ops = x
        branches = p['branches']
        s = idx.reshape(-1)[0]
        if s.op == 'const':
            return run_closed(branches[min(max(int(s.aux), 0), len(branches) - 1)], ops, ctx)
        res = [run_closed(b, ops, ctx) for b in branches]
        out = res[-1]
        for k in range(len(branches) - 2, -1, -1):
            c = mk('not', s) if s.dt == 'b' else (
                mk('le', s, const(0, s.dt)) if k == 0 else mk('same', s, const(k, s.dt)))
            out = [merge(c, a, b) for a, b in zip(res[k], out)]
        return out
    if name == 'while':
        nc, nb = p['cond_nconsts'], p['body_nconsts']
        cc, bc, carry = x[:nc], x[nc:nc + nb], x[nc + nb:]
        for it in range(ctx.unroll + 1):
            c = run_closed(p['cond_jaxpr'], cc + carry, ctx)[0]
            if isinstance(c, Poison):
                raise Unsupported(c.why)
            pred = c        # under vmap one predicate per mapped element: each keeps its values once its own is false
            c = ir.Or(list(pred.reshape(-1)))
            if c.op == 'const' and not bool(c.aux):
                return carry
            if it == ctx.unroll:
                ctx.obligations.append((f'while loop ends within {ctx.unroll} iterations', mk('not', c)))
                return carry
            new = run_closed(p['body_jaxpr'], bc + carry, ctx)
            carry = [merge_by(pred, a, b) for a, b in zip(new, carry)]
    if name == 'scan':
        nconst, ncarry, length = p['num_consts'], p['num_carry'], p['length']
        cs, carry, xs = x[:nconst], x[nconst:nconst + ncarry], x[nconst + ncarry:]
        if length > 64:
            unsup('long scan')
        order = range(length - 1, -1, -1) if p['reverse'] else range(length)
        ys = {}
        for k in order:
            r = run_closed(p['jaxpr'], cs + carry + [a[k] if isinstance(a[k], np.ndarray) else np.array(a[k], dtype=object) for a in xs], ctx)
            carry, ys[k] = r[:ncarry], r[ncarry:]
        stacked = []
        for j in range(len(eqn.outvars) - ncarry):
            o = np.empty(eqn.outvars[ncarry + j].aval.shape, dtype=object)
            for k in range(length):
                if isinstance(ys[k][j], Poison):
                    raise Unsupported(ys[k][j].why)
                o[k] = ys[k][j][()]
            stacked.append(o)
        return carry + stacked
    if name in ('debug_callback',):
        return []
    unsup(name)


def sort(xs, dim, num_keys):
    """A sorting network on terms: stable, NaN last."""
    if num_keys != 1:
        unsup('sort by several keys')
    rows = [np.moveaxis(x, dim, 0).copy() for x in xs]
    n = rows[0].shape[0]
    if n > 8:
        unsup('long sort')
    for i in np.ndindex(*rows[0].shape[1:]):
        for end in range(n - 1, 0, -1):
            for k in range(end):
                a, b = rows[0][(k,) + i], rows[0][(k + 1,) + i]
                swap = mk('lt', b, a) if a.dt != 'b' else ir.And(a, ir.Not(b))
                if ir.is_float(a.dt):
                    swap = ir.Or(swap, ir.And(ir.isnan(a), ir.Not(ir.isnan(b))))
                for r in rows:
                    u, v = r[(k,) + i], r[(k + 1,) + i]
                    r[(k,) + i], r[(k + 1,) + i] = mk('ite', swap, v, u), mk('ite', swap, u, v)
    return [np.moveaxis(r, 0, dim) for r in rows]


def dot_general(a, b, dn):
    (ca, cb), (ba, bb) = dn
    fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
    fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
    A = np.transpose(a, list(ba) + fa + list(ca))
    B = np.transpose(b, list(bb) + fb + list(cb))
    nb, na, nf = len(ba), len(fa), len(fb)
    bs, sa, sb = A.shape[:nb], A.shape[nb:nb + na], B.shape[nb:nb + nf]
    out = np.empty(tuple(bs) + tuple(sa) + tuple(sb), dtype=object)
    for i in np.ndindex(*bs):
        for j in np.ndindex(*sa):
            for k in np.ndindex(*sb):
                u = np.asarray(A[i + j], dtype=object).reshape(-1)
                v = np.asarray(B[i + k], dtype=object).reshape(-1)
                acc = None
                for s, t in zip(u, v):
                    m = mk('mul', s, t)
                    acc = m if acc is None else mk('add', acc, m)
                out[i + j + k] = acc
    return out


def unsup(name):
    raise Unsupported(f'primitive {name}')
