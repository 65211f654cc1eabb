"""The encodings of the primitives against JAX itself: evaluated terms, and what the solvers say, on known inputs."""
import numpy as np
from . import env
import jax
from jax import numpy as jnp
from . import ir, jaxpr as jx, solve

A = lambda *s: np.arange(int(np.prod(s)), dtype=np.float32).reshape(s)
i32 = np.int32


def table():
    lax = jax.lax
    v, m = ((3,), 'f32'), ((2, 3), 'f32')
    ix = lambda f, i: (lambda x, k: f(x, k), [m, i32(i)])
    yield from ((f, [v]) for f in (
        lambda x: x.at[...].add(1.), lambda x: x.at[1].set(5.), lambda x: x.at[jnp.array([0, 0, 2])].add(x),
        lambda x: x.at[jnp.array([0, 0, 2])].multiply(x), lambda x: x.at[1:].max(0.5), lambda x: x.at[jnp.array([5, 0])].add(1., mode='drop'),
        lambda x: jnp.where(x > 1.5, size=3, fill_value=0)[0], jnp.sort, jnp.argmax, jnp.argmin, jnp.argsort,
        lambda x: lax.reduce(x, jnp.float32(0), lax.add, (0,)), jnp.diff, lambda x: jnp.roll(x, 1), jnp.nan_to_num,
        lambda x: jnp.heaviside(x, 0.5), lambda x: jnp.piecewise(x, [x < 2, x >= 2], [lambda t: t, lambda t: 2 * t]),
        lambda x: jnp.count_nonzero(x > 1), lambda x: jax.nn.one_hot(1, 3) * x, lambda x: jnp.select([x > 1, x > 2], [x, 2 * x], 0),
        lambda x: (x > 1).astype(int) & 1, lambda x: (x > 1).astype(int) ^ 3, jnp.round, jnp.floor, jnp.ceil, jnp.sign, jnp.abs,
        lambda x: jnp.bitwise_or(x > 1, x < 0), jnp.cumsum, jnp.cumprod, lambda x: jnp.clip(x, 0., 1.), lambda x: jnp.maximum(x, 1.),
        lambda x: jnp.minimum(1., x), jnp.isnan, jnp.isinf, jnp.isfinite, jax.nn.relu, lambda x: x == x, lambda x: x != x[::-1],
        lambda x: x.astype(jnp.float16), lambda x: x.astype(jnp.bfloat16).astype(jnp.float32), lambda x: x > 0.5, lambda x: x <= 1,
        lambda x: x ** 2, lambda x: x ** -1, lambda x: jnp.prod(x), jnp.max, jnp.min, lambda x: jnp.all(x > 0), lambda x: jnp.any(x > 2),
        lambda x: lax.cond(x[0] > x[1], lambda y: y + 1, lambda y: y * 2, x), lambda x: lax.switch(2, [lambda y: y, lambda y: -y, lambda y: y * 3], x),
        lambda x: lax.while_loop(lambda c: (c[0] < 3) & (c[1][0] < 9), lambda c: (c[0] + 1, c[1] + 1), (0, x)),
        lambda x: lax.scan(lambda c, t: (c + t, c * t), 0., x), lambda x: lax.fori_loop(0, 3, lambda k, t: t + k, x),
        jax.vmap(lambda t: lax.while_loop(lambda c: c < 2, lambda c: c + 1, t)), lambda x: jnp.searchsorted(jnp.array([0., 1., 2.]), x),
        lambda x: jnp.outer(x, x), lambda x: jnp.dot(x, x), lambda x: jnp.tril(jnp.outer(x, x)), lambda x: lax.reduce_precision(x, 8, 23)))
    yield from ((f, [m]) for f in (
        lambda x: x.at[0, :2].set(7.), lambda x: x.at[:, 1].min(1.), lambda x: x[jnp.argmax(x[:, 0])], lambda x: x.T, lambda x: jnp.flip(x, 1),
        lambda x: jnp.take_along_axis(x, jnp.argmax(x, axis=1)[:, None], axis=1), lambda x: jnp.einsum('ij,kj->ik', x, x), lambda x: jnp.pad(x, 1),
        lambda x: jnp.moveaxis(x, 0, 1), lambda x: jnp.stack([x, x], 1), lambda x: jnp.tile(x, 2), lambda x: jnp.split(x, 3, 1), lambda x: x[..., None],
        lambda x: x.reshape(-1)[::-1], lambda x: jnp.sum(x, 0), lambda x: jnp.mean(x, 1), jax.vmap(lambda r: r[0] + r)))
    yield from ((f, [(shape, 'f32')]) for shape in ((), (1,), (0, 2), (2, 1, 2)) for f in (
        lambda x: x.at[...].add(1.), lambda x: jnp.where(x > 0, x, 0.), lambda x: x.T, jnp.sum, lambda x: jnp.all(x > 0),
        lambda x: jnp.any(x > 0), lambda x: x.reshape(-1), lambda x: x[None], lambda x: x[..., None], lambda x: jnp.expand_dims(x, (0, -1)),
        lambda x: jnp.broadcast_to(x, (3,) + x.shape), lambda x: jnp.clip(x, 0, 1), lambda x: jnp.select([x > 0], [x], 1.), lambda x: jnp.stack([x, -x]),
        lambda x: jnp.stack([x, -x], axis=-1), lambda x: jnp.concatenate([x.ravel(), x.ravel()]), lambda x: jax.vmap(lambda t: t + 1)(x[None]),
        lambda x: lax.map(lambda t: t * 2, jnp.stack([x, x])), lambda x: jnp.einsum('...,...->...', x, x), lambda x: jnp.sum(x[None], 0),
        lambda x: jnp.prod(x), lambda x: jnp.cumsum(x.ravel()), lambda x: jnp.zeros_like(x).at[...].set(x), lambda x: jnp.full_like(x, 2.) - x,
        lambda x: x.astype(jnp.int32), lambda x: [(x * f).astype(d) for d in (jnp.int32, jnp.int8, jnp.uint8, jnp.int16) for f in (1, 100, 1e9)],lambda x: jnp.logical_xor(x > 0, x < 1), lambda x: jnp.isclose(x, 0.), lambda x: jnp.count_nonzero(x),
        lambda x: lax.cond(jnp.all(x > 0), lambda t: t, lambda t: -t, x), lambda x: jax.checkpoint(lambda t: t * t)(x), lambda x: lax.stop_gradient(x),
        lambda x: jnp.max(x, initial=0.), lambda x: jnp.min(x, initial=1.), lambda x: jnp.array_equal(x, x), lambda x: jnp.nanmax(x, initial=0.),
        lambda x: jnp.squeeze(x[None], 0), lambda x: jnp.swapaxes(x[None, None], 0, 1), lambda x: jnp.repeat(x[None], 2, axis=0),
        lambda x: jnp.vectorize(lambda t: t + 1)(x), lambda x: jnp.where(jnp.isnan(x), 0., x), 
        lambda x: lax.select(x > 0, x, -x), lambda x: lax.clamp(0., x, 1.), lambda x: x.astype(bool), lambda x: jnp.asarray(x > 0, x.dtype) * x))
    for i in (-1, 0, 1, 5):
        yield ix(lambda x, k: x.at[k].add(1.), i)
        yield ix(lambda x, k: x.at[k].set(1.), i)
        yield ix(lambda x, k: x[k], i)
        yield ix(lambda x, k: x[:, k], i)
        yield ix(lambda x, k: lax.dynamic_slice(x, (0, k), (2, 2)), i)
        yield ix(lambda x, k: lax.dynamic_update_slice(x, x[:1], (k, 0)), i)
    for a in (-7, -1, 0, 5, 12):
        for b in (-3, 1, 4):
            yield (lambda s, t: (s + t, s - t, s * t, s // t, s % t, s & t, s | t, s ^ t, ~s, -s, abs(s), s < t, s <= t, s == t, jnp.maximum(s, t)), [i32(a), i32(b)])
            yield (lambda s: s.astype(jnp.float32) / 4, [i32(a)])


def check():
    rng = np.random.default_rng(0)
    special = np.array([np.nan, np.inf, -np.inf, 0., -0., 1., 0.5, 2.5, -1.5], np.float32)
    n = bad = 0
    queries, what = [], []
    for k, (f, specs) in enumerate(table()):
        for draw in range(2):
            args = []
            for s in specs:
                if isinstance(s, tuple):
                    x = np.asarray(rng.integers(-12, 13, s[0]), np.float32) / np.float32(4) + np.zeros(s[0], np.float32)
                    x = np.asarray(x, np.float32)
                    if draw and x.size:
                        x.reshape(-1)[rng.integers(x.size)] = special[rng.integers(len(special))]
                    args.append(x)
                else:
                    args.append(s)
            cj = jax.make_jaxpr(f)(*args)
            ins = [jx.sym(f'v{j}', np.shape(a), ir._TAG[np.asarray(a).dtype]) for j, a in enumerate(args)]
            outs = jx.run_closed(cj, ins, jx.Ctx(12))
            vals, fix = {}, []
            for j, a in enumerate(args):
                a = np.asarray(a)
                for q in np.ndindex(*a.shape):
                    nm = f'v{j}' + ''.join(f'_{t}' for t in q)
                    vals[nm] = a[q]
                    fix.append(ir.mk('same', ir.var(nm, ir._TAG[a.dtype]), ir.const(a[q], ir._TAG[a.dtype])))
            for o, r in zip(outs, jax.tree_util.tree_leaves(f(*map(jnp.asarray, args)))):
                r = np.asarray(r)
                if isinstance(o, jx.Poison):
                    bad += 1
                    print('primitive encoding', k, specs, 'not encoded:', o.why if hasattr(o, 'why') else vars(o))
                    continue
                for t, want in zip(o.reshape(-1), r.reshape(-1)):
                    n += 1
                    got = ir.evaluate(t, vals, 'fp')
                    same = ir._close(got, want, 1e-6)
                    bad += not same
                    if not same:
                        print('primitive encoding', k, 'evaluates to', got, 'JAX', want)
                    # the solver, given these inputs, must not find another result
                    w = ir.const(got, t.dt)
                    if t.op != 'const' and not (ir.is_float(t.dt) and got == 0):
                        queries.append(solve.Query(fix + [ir.Not(ir.mk('same', t, w))], 'fp', 60))
                        what.append((k, got))
    for (k, got), (v, _) in zip(what, solve.decide_all(queries)):
        if v != 'unsat':
            bad += 1
            print('primitive encoding', k, 'the solver allows another result than', got, v)
    print(n, 'results of primitives compared,', len(queries), 'with the solver,', bad, 'differ')
    return bad


if __name__ == '__main__':
    check()
