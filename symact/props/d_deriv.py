"""D01: derivatives through steps, resets and masks."""
from ..common import *
from .. import ir
from ..ir import And, Or, Not, Implies, If, same, req, Iff, conv, mk, const
from .l_layers import Plain, start
from .c_step import clip, thr, dep, halts, weight, core, each

DIFF = ('p', 'r')


def inside(h):
    """Where clipping the halting input lets its derivative through."""
    return And(const(0, h.dt) < h, h < const(1, h.dt))


def load(cfg, a, ins):
    return controller(cfg, {**a, **ins}, updates=list(cfg.accs))


def fwd_case(cfg, op):
    """The tangents of the results, for symbolic tangents of everything that is differentiable."""
    keys = ['p', 'r'] + [key(w, n, k) for w in ('acc', 'def') for n, k, _ in cfg.leaf_list()]
    if op == 'step':
        keys += ['h'] + [key('upd', n, k) for n, k, _ in cfg.leaf_list()]
        if cfg.dep is None:
            keys.append('dep')

    def run(a):
        x = {k: a[k] for k in keys}
        t = {k: a['t' + k] for k in keys}

        def f(x):
            if op == 'step':
                s = load(cfg, a, x).iterate_act(x['h']).save()
            elif op == 'reset':
                s = controller(cfg, {**a, **x}).reset_batches().save()
            else:
                s = controller(cfg, {**a, **x}).make_viewer().mask_data(a['m']).save()
            o = outputs(cfg, s)
            return {k: v for k, v in o.items() if k not in ('it', 'dep', 'eps')}
        y, ty = jax.jvp(f, (x,), (t,))
        return {'d' + k: v for k, v in ty.items()}

    def moved(I, b):
        """The derivative of the depressed halting input."""
        d = dep(cfg, I) * If(inside(I['h'][b]), I['th'][b], const(0, cfg.core))
        return d + conv(I['tdep'].reshape(-1)[0], cfg.core) * clip(I['h'][b]) if cfg.dep is None else d

    def post(I, O):
        for i in np.ndindex(*cfg.batch):
            was = I['p'][i] > thr(cfg, I)
            dp, dr = I['tp'][i], I['tr'][i]
            z = const(0, cfg.core)
            if op == 'step':
                newly = And(Not(was), halts(cfg, I, i))
                dw = moved(I, i)
                yield 'd cumulative probability', Implies(Not(was), req(O['dp'][i], If(newly, z, dp + dw)))
                yield 'd residual: minus the derivative of the mass so far when halting', req(O['dr'][i], If(newly, -dp, dr))
            elif op == 'reset':
                yield 'd cumulative probability', req(O['dp'][i], If(was, z, dp))
                yield 'd residual', req(O['dr'][i], If(was, z, dr))
            else:
                yield 'd cumulative probability', req(O['dp'][i], If(I['m'][i], dp, z))
                yield 'd residual', req(O['dr'][i], If(I['m'][i], dr, z))
        for a, u, i, b in each(cfg, I, O):
            was = I['p'][b] > thr(cfg, I)
            d = a.replace('acc.', 'def.', 1)
            da, dd = I['t' + a][i], I['t' + d][i]
            z = const(0, da.dt)
            if op == 'step':
                newly = halts(cfg, I, b)
                dw = If(newly, -I['tp'][b], moved(I, b))
                w = weight(cfg, I, b)
                want = da + conv(w, da.dt) * I['t' + u][i] + conv(dw, da.dt) * I[u][i]
                yield f'd accumulator: by the update its weight, by the weight the update ({a})', req(O['d' + a][i], If(was, da, want))
                yield f'd default ({d})', req(O['d' + d][i], dd)
            elif op == 'reset':
                yield f'd accumulator ({a})', req(O['d' + a][i], If(was, dd, da))
                yield f'd default ({d})', req(O['d' + d][i], dd)
            else:
                m = I['m'][b]
                yield f'd accumulator ({a})', req(O['d' + a][i], If(m, da, z))
                yield f'd default ({d})', req(O['d' + d][i], If(m, dd, z))
    ins = state_inputs(cfg, acc='fin', default='fin', update='fin', p='open')
    ins['h'] = Inp(cfg.batch, cfg.core, 'off01')
    ins['m'] = Inp(cfg.batch, 'b', 'any')
    for k in keys:
        ins['t' + k] = Inp(ins[k].shape, ins[k].dt, 'fin')
    return Case(f'D01:{op}-{cfg.name}:re', ins, run, post, mode='re')


def rev_case(cfg):
    """The gradient: one symbolic cotangent per result, back through a step."""
    keys = ['p', 'h'] + [key(w, n, k) for w in ('acc', 'upd') for n, k, _ in cfg.leaf_list()]

    def run(a):
        x = {k: a[k] for k in keys}

        def f(x):
            o = outputs(cfg, load(cfg, a, x).iterate_act(x['h']).save())
            return {k: v for k, v in o.items() if k in ('p', 'r') or k.startswith('acc.')}
        y, back = jax.vjp(f, x)
        g, = back({k: a['c' + k] for k in y})
        return {'g' + k: v for k, v in g.items()}

    def post(I, O):
        total = {}
        for a, u, i, b in each(cfg, I, O):
            was = I['p'][b] > thr(cfg, I)
            c = I['c' + a][i]
            yield f'the gradient by the update is its weight ({a})', req(O['g' + u][i], If(was, const(0, c.dt), conv(weight(cfg, I, b), c.dt) * c))
            yield f'the gradient by the accumulator passes through ({a})', req(O['g' + a][i], c)
            total[b] = total.get(b, const(0, cfg.core)) + conv(I[u][i] * c, cfg.core)
        for b in np.ndindex(*cfg.batch):
            was, stop = I['p'][b] > thr(cfg, I), halts(cfg, I, b)
            z = const(0, cfg.core)
            s = total.get(b, z)
            free = And(Not(was), Not(stop), inside(I['h'][b]))
            yield 'the gradient by the halting probability of a running element', Implies(free, req(O['gh'][b], dep(cfg, I) * (I['cp'][b] + s)))
            for when in (was, stop, Not(inside(I['h'][b]))):
                yield 'no gradient by the halting probability when it does not matter', Implies(when, req(O['gh'][b], z))
            yield 'the gradient by the cumulative probability', Implies(Not(was), req(O['gp'][b], If(stop, -(I['cr'][b] + s), I['cp'][b])))
    ins = state_inputs(cfg, acc='fin', default='fin', update='fin', p='open')
    ins['h'] = Inp(cfg.batch, cfg.core, 'off01')
    for k in ['p', 'r'] + [key('acc', n, k) for n, k, _ in cfg.leaf_list()]:
        ins['c' + k] = Inp(ins[k].shape, ins[k].dt, 'fin')
    return Case(f'D01:gradient-{cfg.name}:re', ins, run, post, mode='re')


def loop_case(cfg, bound):
    """Tangents through the loop of execute_act are those of the documented loop, unrolled."""
    def go(a, x, unrolled):
        layer, st = Plain(cfg, {**a, **x}, {}), start({**a, **x})
        if not unrolled:
            c, s = layer.execute_act(st, 1.0, bound, True)
        else:
            c, s = controller(cfg, {**a, **x}), st
            for _ in range(bound):
                on = jnp.logical_not(jnp.all(c.probabilities > c.halt_threshold))
                c, s = jax.tree_util.tree_map(lambda x, y: jnp.where(on, x, y), layer.step(c, s), (c, s))
        return {**{k: v for k, v in outputs(cfg, c.save()).items() if k != 'it'}, 'h': s['h'], 'x': s['x']}
    keys = ['p', 'r', 'hs', 'xs'] + [key('acc', n, k) for n, k, _ in cfg.leaf_list()]

    def run(a):
        x, t = {k: a[k] for k in keys}, {k: a['t' + k] for k in keys}
        out = {}
        for w, un in (('got', False), ('want', True)):
            y, ty = jax.jvp(lambda x: go(a, x, un), (x,), (t,))
            out.update({w + k: v for k, v in ty.items()})
        return out

    def post(I, O):
        for k in O:
            if k.startswith('got'):
                for i in np.ndindex(*O[k].shape):
                    yield f'd {k[3:]} through the loop', req(O[k][i], O['want' + k[3:]][i])
    ins = state_inputs(cfg, p='open')
    ins['hs'] = Inp((bound,) + cfg.batch, cfg.core, 'open')
    ins['xs'] = Inp((bound,) + cfg.batch, 'f32', 'fin')
    ins['n0'] = Inp((), 'i32', ('range', 0, 1000))
    for k in keys:
        ins['t' + k] = Inp(ins[k].shape, ins[k].dt, 'fin')
    return Case(f'D01:loop-{cfg.name}-{bound}:re', ins, run, post, mode='re', unroll=bound, structural=True, loops=True)


def d01(tier):
    out = []
    for cfg in (Cfg('one', (2,), {'x': L()}, eps=1e-4, dep=1.0), Cfg('scalar', (), {'x': L(2)}), Cfg('tree', (2,), {'s': {'m': L(2), 'k': [L()]}}, eps=0.01, dep=0.5)):
        out.append(loop_case(cfg, 2 if tier == 'quick' else 3))
    sel = ['v2', 'scalar', 'scalar_wide', 'b1', 'square', 'b22', 'names', 'nested', 'deep', 'eps01', 'v3e', 'core32_acc16', 'f64', 'core32_acc64', 'core64_acc32']
    for cfg in cfgs(tier):
        if tier == 'quick' and cfg.name not in sel or cfg.core not in ('f32', 'f64'):
            continue        # jaxlib's CPU compiler crashes on the float16 derivative of clip
        for op in ('step', 'reset', 'mask'):
            out.append(fwd_case(cfg, op))
        out.append(rev_case(cfg))
    return out
