"""V: masked views, the halted/unhalted partition, transform."""
import types
from ..common import *
from .. import ir
from ..ir import And, Or, Not, Implies, If, same, Iff, conv, mk, const
from .c_proto import full_out, pend_sets, identity_post, key, pick
from src.jax_act.core.viewer import ACTViewer


def arrays(cfg, pending):
    """(name, shape, number of batch dims to index)"""
    for f in ('p', 'r', 'it'):
        yield f, cfg.batch
    for w in ('acc', 'def'):
        for n, k, l in cfg.leaf_list():
            yield key(w, n, k), cfg.shape(l)
    for n, k, l in cfg.leaf_list():
        if n in pending:
            yield key('upd', n, k), cfg.shape(l)


def view_outs(cfg, pending, prefix=''):
    o = {}
    for k, s in arrays(cfg, pending):
        dt = cfg.core if k in ('p', 'r', 'it') else next(l.dt for n, q, l in cfg.leaf_list() if key(k.split('.')[0], n, q) == k)
        o[prefix + k] = Out(s, dt)
    o[prefix + 'eps'] = o[prefix + 'dep'] = Out((), 'f32')
    return o


def public(v):
    """The viewer through its own properties."""
    s = v.save()
    return types.SimpleNamespace(probabilities=v.probabilities, residuals=v.residuals, iterations=v.iterations,
                                 accumulators=v.accumulators, defaults=v.defaults, updates=v.updates,
                                 epsilon=s.epsilon, depression_constant=s.depression_constant)


def mask_cases(tier):
    out = []
    for ci, cfg in enumerate(cfgs(tier)):
        sets = pend_sets(cfg)
        for pending in (sets if tier != 'quick' else [sets[ci % len(sets)], sets[(ci + 1) % len(sets)]]):
            def run(a, cfg=cfg, pending=pending):
                facts = {}
                v = controller(cfg, a, updates=pending).make_viewer().mask_data(a['m'])
                facts['the result is a viewer'] = type(v) is ACTViewer
                out = full_out(cfg, public(v), facts, pending)
                out['!facts'] = facts
                return out

            def post(I, O, cfg=cfg, pending=pending):
                nb = len(cfg.batch)
                for k, shape in arrays(cfg, pending):
                    for i in np.ndindex(*shape):
                        m = I['m'][i[:nb]]
                        yield f'kept by the mask: unchanged ({k})', Implies(m, same(O[k][i], I[k][i]))
                        yield f'removed by the mask: zero ({k})', Implies(Not(m), mk('eq', O[k][i], const(0, O[k][i].dt)))
            ins = state_inputs(cfg, acc='any', default='any', update='any')
            ins['m'] = Inp(cfg.batch, 'b', 'any')
            out.append(Case(f'V01:{cfg.name}-{len(pending)}:fp', ins, run, post, view_outs(cfg, pending)))
    return out


MASKS = [lambda: jnp.array([True, False]), lambda: np.array([True, False]), lambda: np.array([0.5, 0.0]), lambda: np.array([1, 0]), lambda: np.array([1, 0], np.uint8),
         lambda: np.array([1.0, 0.0], np.float32), lambda: jnp.array([1, 0], jnp.int8), lambda: jnp.array([1, 0], jnp.uint8), lambda: jnp.array([1, 0], jnp.float16),
         lambda: np.array([True, False], object), lambda: np.array([[True], [False]]), lambda: np.array(True), lambda: np.bool_(True), lambda: np.array(['a', '']),
         lambda: np.array([True, False, True])]


def mask_kinds():
    """Masks of whatever kind: only Booleans of the batch shape are masks, in numpy as in jax."""
    cfg = Cfg('kinds', (2,), {'x': L(2)}, eps=1e-4, dep=1.0)

    def run(a):
        k = pick(a['k'], len(MASKS))
        v = controller(cfg, a, updates=['x']).make_viewer().mask_data(MASKS[k]())
        return full_out(cfg, v.save(), {}, ['x'])

    def post(I, O):
        for k in arrays(cfg, ['x']):
            k = k[0]
            for i in np.ndindex(*O[k].shape):
                yield f'the mask keeps the first element only ({k})', same(O[k][i], I[k][i]) if i[0] == 0 else mk('eq', O[k][i], const(0, O[k][i].dt))
    return Case('V01:kinds:fp', {**state_inputs(cfg, acc='any', default='any', update='any'), 'k': Inp((), 'i64', ('range', 0, len(MASKS) - 1), py=True)}, run, post,
                raises=lambda I: mk('le', const(2, 'i64'), I['k'].reshape(-1)[0]))


def v01(tier):
    out = mask_cases(tier)
    for batch, shapes in (((2,), [(), (1,), (3,), (2, 1), (1, 2), (2, 3)]), ((), [(1,), (2,)]), ((2, 3), [(2,), (3,), (3, 2), (1, 3), (2, 1), (2, 3, 1)])):
        for s in shapes:
            cfg = Cfg('shape', batch, {'x': L(2)}, eps=1e-4, dep=1.0)
            ins = state_inputs(cfg)
            ins['m'] = Inp(s, 'b', 'any')
            out.append(Case(f'V01:refuse-{batch}-{s}'.replace(' ', '') + ':fp', ins,
                            lambda a, cfg=cfg: {'p': controller(cfg, a).make_viewer().mask_data(a['m']).probabilities},
                            lambda I, O: [], raises=lambda I: const(True, 'b'), jit_replay=False))
    out.append(mask_kinds())
    out.append(mode_case('V01', {'mask': lambda s: ACTViewer.load(s).mask_data(jnp.array([True, False])).save()}))
    for dt in ('f32', 'i32'):
        cfg = Cfg('dtype', (2,), {'x': L(2)}, eps=1e-4, dep=1.0)
        ins = state_inputs(cfg)
        ins['m'] = Inp((2,), dt, 'fin' if dt == 'f32' else ('range', 0, 1))
        out.append(Case(f'V01:refuse-{dt}:fp', ins,
                        lambda a, cfg=cfg: {'p': controller(cfg, a).make_viewer().mask_data(a['m']).probabilities},
                        lambda I, O: [], raises=lambda I: const(True, 'b'), jit_replay=False))
    return out


def v02(tier):
    out = [mode_case('V02', {'halted': lambda s: ACTViewer.load(s).halted_only().save(), 'unhalted': lambda s: ACTViewer.load(s).unhalted_only().save()})]
    for ci, cfg in enumerate(cfgs(tier)):
        sets = pend_sets(cfg)
        for pending in (sets if tier != 'quick' else [sets[ci % len(sets)]]):
            def run(a, cfg=cfg, pending=pending):
                facts = {}
                c = controller(cfg, a, updates=pending)
                v = c.make_viewer()
                h, u = v.halted_only(), v.unhalted_only()
                out = {}
                for pre, w in (('H', h), ('U', u)):
                    facts[pre + ' is a viewer'] = type(w) is ACTViewer
                    out.update(full_out(cfg, w.save(), facts, pending, pre))
                out['halted'] = c.halted_batches
                out['!facts'] = facts
                return out

            def post(I, O, cfg=cfg, pending=pending):
                t = thr(cfg, I)
                nb = len(cfg.batch)
                for i in np.ndindex(*cfg.batch):
                    yield 'the controller and the views agree on what is halted', Iff(O['halted'][i], I['p'][i] > t)
                for k, shape in arrays(cfg, pending):
                    for i in np.ndindex(*shape):
                        hal = I['p'][i[:nb]] > t
                        x, z = I[k][i], const(0, I[k][i].dt)
                        yield f'a halted element is in the halted view only ({k})', \
                            Implies(hal, And(same(O['H' + k][i], x), mk('eq', O['U' + k][i], z)))
                        yield f'a running element is in the unhalted view only ({k})', \
                            Implies(Not(hal), And(same(O['U' + k][i], x), mk('eq', O['H' + k][i], z)))
            outs = {**view_outs(cfg, pending, 'H'), **view_outs(cfg, pending, 'U'), 'halted': Out(cfg.batch, 'b')}
            out.append(Case(f'V02:{cfg.name}-{len(pending)}:fp', state_inputs(cfg, acc='any', default='any', update='any', p='wild'), run, post, outs))
    return out


FUNCS = {
    'affine': (lambda t: 2 * t + 1, lambda x: 2 * x + 1, None),
    'negate': (lambda t: -t, lambda x: -x, None),
    'unsqueeze': (lambda t: t[None] * 3, lambda x: x * 3, lambda s: (1,) + s),
    'flatten': (lambda t: (t + 1).reshape(-1), lambda x: x + 1, lambda s: (int(np.prod(s, dtype=int)),)),
    'tail': (lambda t: jnp.stack([t, 2 * t], axis=-1), None, lambda s: s + (2,)),
    'identity': (lambda t: t, lambda x: x, None),
    'positive': (lambda t: t > 0, lambda x: mk('lt', const(0, x.dt), x), None),
    'narrow': (lambda t: t.astype(jnp.bfloat16), lambda x: ir.conv(x, 'bf16'), None),
    'nonzero': (lambda t: jnp.where(t > 0, 1., 5.).astype(t.dtype), lambda x: If(x > 0, const(1, x.dt), const(5, x.dt)), None),
}


def v03(tier):
    out = []
    for ci, cfg in enumerate(cfgs(tier)):
        sets = pend_sets(cfg)
        for fi, (fn, (f, spec, shp)) in enumerate(FUNCS.items()):
            if tier == 'quick' and (ci + fi) % 2:
                continue
            pending = sets[(ci + fi // 2) % len(sets)]
            shp = shp or (lambda s: s)

            def run(a, cfg=cfg, f=f, pending=pending):
                facts, calls = {}, []
                v = controller(cfg, a, updates=pending).make_viewer().transform(lambda t: (calls.append(1), f(t))[1])
                facts['the function is called once for every tensor'] = len(calls) == len(list(arrays(cfg, pending)))
                facts['the result is a viewer'] = type(v) is ACTViewer
                out = full_out(cfg, v.save(), facts, pending)
                out['!facts'] = facts
                return out

            def post(I, O, cfg=cfg, pending=pending, fn=fn, spec=spec, shp=shp):
                for k, shape in arrays(cfg, pending):
                    flat_in, flat_out = I[k].reshape(-1), O[k].reshape(-1)
                    for j, x in enumerate(flat_in):
                        if fn == 'tail':
                            yield f'the function is applied once to {k}', And(same(flat_out[2 * j], x), same(flat_out[2 * j + 1], 2 * x))
                        else:
                            yield f'the function is applied once to {k}', same(flat_out[j], spec(x))
                for k in ('eps', 'dep'):
                    if k in I:
                        yield f'{k} is kept', same(O[k].reshape(-1)[0], I[k].reshape(-1)[0])
            outs = {k: Out(shp(o.shape) if k not in ('eps', 'dep') else (), {'positive': 'b', 'narrow': 'bf16'}.get(fn, o.dt) if k not in ('eps', 'dep') else o.dt) for k, o in view_outs(cfg, pending).items()}
            out.append(Case(f'V03:{fn}-{cfg.name}-{len(pending)}:fp', state_inputs(cfg, acc='any', default='any', update='any'), run, post, outs))
    def run4(a):
        """One tensor under many names, and a function that answers differently every time."""
        t, seen = a['t'], []
        c = ControllerBuilder.new_builder(2).define_accumulator_directly('x', [t, t]).define_accumulator_directly('y', {'k': t}).build()
        c = c.cache_update('x', [t, t]).cache_update('y', {'k': t})

        def f(x):
            seen.append(x)
            return jnp.full_like(x, len(seen))
        s = c.make_viewer().transform(f).save()
        had, got = jax.tree_util.tree_leaves(c.save()), jax.tree_util.tree_leaves(s)
        tensors = [(x, y) for x, y in zip(had, got) if jnp.ndim(y)]
        return {'d': jnp.stack([y[0] for x, y in tensors]), '!facts': {'every tensor is asked for once': len(seen) == len(tensors) == 12,
                'each call has its own tensor to answer for': len({id(y) for _, y in tensors}) == 12}}

    def post4(I, O):
        for k in range(1, 13):
            yield 'every answer is used once', Or([mk('eq', x, const(k, 'f32')) for x in O['d'].reshape(-1)])
    out.append(Case('V03:shared:fp', {'t': Inp((2,), 'f32', 'fin')}, run4, post4))
    out.append(mode_case('V03', {'transform': lambda s: ACTViewer.load(s).transform(lambda t: 2 * t).save(), 'identity': lambda s: ACTViewer.load(s).transform(lambda t: t).save()}))
    for bad in ('acc', 'upd', 'def', 'p'):
        cfg = Cfg('bad', (2,), {'x': L(2), 'y': L(3)}, eps=1e-4, dep=1.0)
        # the function fails on one tensor only: the failure must not be swallowed
        want = {'acc': (2, 5), 'upd': (2, 6), 'def': (2, 7), 'p': (2,)}[bad]

        def run3(a, want=want, cfg=cfg):
            c = controller(cfg, a)
            s = c.save()
            s = dataclasses.replace(s, accumulators={'x': a['A']}, updates={'x': a['U']}, defaults={'x': a['D']})

            def f(t):
                if t.shape == want:
                    raise ValueError('boom')
                return t
            return {'p': ACTViewer.load(s).transform(f).probabilities}
        ins = state_inputs(cfg)
        ins.update(A=Inp((2, 5), 'f32', 'fin'), U=Inp((2, 6), 'f32', 'fin'), D=Inp((2, 7), 'f32', 'fin'))
        out.append(Case(f'V03:failing-{bad}:fp', ins, run3, lambda I, O: [], raises=lambda I: const(True, 'b'), jit_replay=False))
    return out
