"""S03: mapping over controllers and scanning steps."""
from ..common import *
from .. import ir
from ..ir import And, Or, Not, Implies, same, mk, const
from .c_proto import key
from .l_layers import Plain, start, flat
from src.jax_act.core.tensoreditor import TensorEditor

J = jax.tree_util
STATIC = ('eps', 'dep')


def vmap_case(cfg, op, both):
    """f over two stacked states is f of the one and f of the other; both: also epsilon and the depression constant differ."""
    pend = list(cfg.accs) if op in ('step', 'cache') else None
    base = state_inputs(cfg, acc='fin', default='fin', update='fin')
    base['h'] = Inp(cfg.batch, cfg.core, 'unit')
    base['m'] = Inp(cfg.batch, 'b', 'any')
    keys = [k for k in base if both or k not in STATIC]

    def f(x, a):
        a = {**a, **x}
        if op == 'cache':
            c = controller(cfg, a)
            for n in cfg.accs:
                c = c.cache_update(n, tree(cfg, a, 'upd', n))
            return c.iterate_act(a['h'])
        c = controller(cfg, a, updates=pend)
        if op == 'step':
            return c.iterate_act(a['h'])
        if op == 'reset':
            return c.reset_batches()
        if op == 'mask':
            return c.make_viewer().mask_data(a['m'])
        if op == 'unhalted':
            return c.make_viewer().unhalted_only()
        if op == 'edit':
            return TensorEditor.edit_controller(c, 'silence').set_probabilities(a['h']).build()
        raise KeyError(op)

    def run(a):
        facts = {}
        xs = {k: a[k] for k in keys}
        got = jax.vmap(lambda x: f(x, a))(xs)
        out = {}
        for i in range(2):
            o = outputs(cfg, J.tree_map(lambda t: t[i], got).save(), facts)
            w = outputs(cfg, f({k: a[k][i] for k in keys}, a).save(), facts)
            out.update({f'got{i}{k}': v for k, v in o.items()})
            out.update({f'want{i}{k}': v for k, v in w.items()})
        if op in ('mask', 'unhalted'):
            return {**out, '!facts': facts}
        out['ghalt'] = jax.vmap(lambda x: f(x, a).is_completely_halted)(xs)
        out['gany'] = jax.vmap(lambda x: f(x, a).is_any_halted)(xs)
        out['whalt'] = jnp.stack([f({k: a[k][i] for k in keys}, a).is_completely_halted for i in range(2)])
        out['wany'] = jnp.stack([f({k: a[k][i] for k in keys}, a).is_any_halted for i in range(2)])
        out['!facts'] = facts
        return out

    def post(I, O):
        for k in O:
            w = 'want' + k[3:] if k.startswith('got') else 'w' + k[1:] if k[0] == 'g' else None
            if w is None:
                continue
            for i in np.ndindex(*O[w].shape):
                yield f'{op} mapped over two states is {op} of each ({k[3:] if len(k) > 4 else k})', ir.req(O[k][i], O[w][i]) if O[k][i].dt != 'b' else same(O[k][i], O[w][i])
    ins = {}
    for k, v in base.items():
        ins[k] = Inp((2,) + v.shape, v.dt, v.dom) if k in keys else v
    return Case(f'S03:vmap-{op}-{cfg.name}-{both}:fp', ins, run, post, tol=1e-4 if cfg.core == 'f32' else 2e-2, traces=True)


def scan_case(cfg, K):
    """K steps by lax.scan over stacked halting probabilities and updates, against K steps written out."""
    def one(a, c, h, us):
        for n in cfg.accs:
            c = c.cache_update(n, us[n])
        return c.iterate_act(h)

    def run(a):
        facts = {}
        us = {n: tree(cfg, a, 'upd', n) for n in cfg.accs}
        got, hist = jax.lax.scan(lambda c, x: (one(a, c, *x), c.probabilities), controller(cfg, a), (a['h'], us))
        fori = jax.lax.fori_loop(0, K, lambda k, c: one(a, c, a['h'][k], J.tree_map(lambda t: t[k], us)), controller(cfg, a))
        c = controller(cfg, a)
        ps = []
        for k in range(K):
            ps.append(c.probabilities)
            c = one(a, c, a['h'][k], J.tree_map(lambda t: t[k], us))
        out = {f'got{k}': v for k, v in outputs(cfg, got.save(), facts).items()}
        out.update({f'fori{k}': v for k, v in outputs(cfg, fori.save(), facts).items()})
        out.update({f'want{k}': v for k, v in outputs(cfg, c.save(), facts).items()})
        out['gothist'], out['wanthist'] = hist, jnp.stack(ps)
        out['!facts'] = facts
        return out

    def post(I, O):
        for k in O:
            for p in ('got', 'fori'):
                if k.startswith(p):
                    w = O['want' + k[len(p):]]
                    for i in np.ndindex(*w.shape):
                        yield f'scanned steps are the steps ({k})', ir.req(O[k][i], w[i])
    ins = state_inputs(cfg)
    ins['h'] = Inp((K,) + cfg.batch, cfg.core, 'unit')
    for n, k, l in cfg.leaf_list():
        ins[key('upd', n, k)] = Inp((K,) + cfg.shape(l), l.dt, 'fin')
    return Case(f'S03:scan{K}-{cfg.name}:fp', ins, run, post, unroll=K, tol=1e-4, structural=True, loops=True)


def loop_vmap_case(cfg, bound):
    """execute_act mapped over two examples: each ends as it would alone."""
    def go(a):
        return Plain(cfg, a, {}).execute_act(start(a), 1.0, bound, True)

    def run(a):
        keys = [k for k in a if k not in STATIC]
        xs = {k: a[k] for k in keys}
        gc, gs = jax.vmap(lambda x: go({**a, **x}))(xs)
        out, facts = {}, {}
        for i in range(2):
            c, s = go({**a, **{k: a[k][i] for k in keys}})
            out.update({f'got{i}{k}': v for k, v in outputs(cfg, J.tree_map(lambda t: t[i], gc).save(), facts).items()})
            out.update({f'want{i}{k}': v for k, v in outputs(cfg, c.save(), facts).items()})
            flat(J.tree_map(lambda t: t[i], gs), f'got{i}state', out)
            flat(s, f'want{i}state', out)
        out['!facts'] = facts
        return out

    def post(I, O):
        for k in O:
            if k.startswith('got'):
                w = O['want' + k[3:]]
                for i in np.ndindex(*w.shape):
                    yield f'a mapped loop ends as each would alone ({k[3:]})', ir.req(O[k][i], w[i])
    base = state_inputs(cfg)
    base['hs'] = Inp((bound,) + cfg.batch, cfg.core, 'number')
    base['xs'] = Inp((bound,) + cfg.batch, 'f32', 'fin')
    base['n0'] = Inp((), 'i32', ('range', 0, 1000))
    ins = {k: v if k in STATIC else Inp((2,) + v.shape, v.dt, v.dom) for k, v in base.items()}
    return Case(f'S03:loop-{cfg.name}-{bound}:fp', ins, run, post, unroll=bound, tol=1e-4, structural=True, loops=True)


def s03(tier):
    out = []
    sel = ['v2', 'scalar', 'names', 'nested', 'b22', 'f16', 'nodes', 'core16_acc32', 'f64', 'core64_acc32']
    for cfg in cfgs(tier):
        if tier == 'quick' and cfg.name not in sel:
            continue
        for op in ('step', 'cache', 'reset', 'mask', 'unhalted', 'edit'):
            out.append(vmap_case(cfg, op, False))
            if cfg.eps is None and op in ('step', 'reset', 'unhalted'):
                out.append(vmap_case(cfg, op, True))
        if cfg.name in ('v2', 'scalar', 'names', 'nodes', 'f16', 'f64') or tier != 'quick' and int(np.prod(cfg.batch)) <= 4:
            out.append(scan_case(cfg, 2 if tier == 'quick' else 4))
    C = [Cfg('one', (2,), {'x': L()}, eps=1e-4, dep=1.0), Cfg('scalar', (), {'x': L(2)}, dep=1.0)]
    for cfg in C:
        out.append(loop_vmap_case(cfg, 2 if tier == 'quick' else 3))
    return out
