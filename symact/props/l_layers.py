"""L: the loop template and the contract checks.  F: the Flax layer."""
import collections
import warnings
from ..common import *
from .. import ir
from ..ir import And, Or, Not, Implies, same, req, Iff, mk, const
from .c_proto import pick, key
from src.jax_act.layers import AbstractACTTemplate, ContractValidationWrapper
from src.jax_act.core.immutable import Immutable
from src.jax_act.core.tensoreditor import TensorEditor

J = jax.tree_util


class Plain(AbstractACTTemplate):
    """A layer in the way the documentation writes one; every step consumes the next slice of its state."""

    def __init__(self, cfg, a, seen):
        self.cfg, self.a, self.seen = cfg, a, seen

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        self.seen['make'] = self.seen.get('make', 0) + 1
        self.seen['make_args'] = (initial_state, depression_constant, args, kwargs)
        if 'events' in self.seen:
            self.seen['events'].append('make')
        return controller(self.cfg, self.a)

    def setup_lazy_parameters(self, c, state):
        self.seen['lazy'] = self.seen.get('lazy', 0) + 1
        self.seen['lazy_args'] = (c, state)
        if 'events' in self.seen:
            self.seen['events'].append('lazy')

    def run_iteration(self, c, state, *args, **kwargs):
        if 'events' in self.seen:
            self.seen['events'].append('run')
        self.seen['run_args'] = (args, kwargs)
        return self.step(c, state)

    def step(self, c, state):
        h, x, n = state['h'], state['x'], state['n']
        for m in self.cfg.accs:
            k = iter(range(100))
            c = c.cache_update(m, J.tree_map(lambda d: d + jnp.reshape(x[0], x.shape[1:] + (1,) * (d.ndim - x.ndim + 1)).astype(d.dtype), c.accumulators[m]))
        c = c.iterate_act(h[0])
        return c, {'h': jnp.concatenate([h[1:], h[:1]]), 'x': jnp.concatenate([x[1:], x[:1]]), 'n': n + 1,
                   'rest': (state['rest'][0] + 1, [])}


def start(a):
    return {'h': a['hs'], 'x': a['xs'], 'n': jnp.asarray(a['n0']), 'rest': (a['n0'] * 2, [])}


def flat(s, prefix, out):
    for k, x in enumerate(J.tree_leaves(s)):
        out[f'{prefix}{k}'] = x


def loop_case(cfg, bound, check, maxkind, name=''):
    """execute_act against the loop its documentation says it is."""
    def run(a):
        seen = {'events': []}
        layer = Plain(cfg, a, seen)
        st = start(a)
        d = 0.625
        mx = a['max'] if maxkind == 'traced' else maxkind
        # bind what the caller passes
        got_c, got_s = layer.execute_act(st, d, mx, check, 'extra', 7, flag=('k', 1))
        facts = {'make_controller is called once': seen['make'] == 1,
                 'lazy parameters are set up once': seen['lazy'] == 1,
                 'the controller is made first, then lazy parameters are set up, then the loop runs': seen['events'][:2] == ['make', 'lazy'],
                 'make_controller receives the initial state': J.tree_structure(seen['make_args'][0]) == J.tree_structure(st)
                 and all(x is y for x, y in zip(J.tree_leaves(seen['make_args'][0]), J.tree_leaves(st))),
                 'make_controller receives the depression constant': seen['make_args'][1] == d,
                 'make_controller receives the further arguments': seen['make_args'][2] == ('extra', 7) and seen['make_args'][3] == {'flag': ('k', 1)},
                 'lazy set up receives a controller': isinstance(seen['lazy_args'][0], ACT_Controller),
                 'lazy set up receives the initial state': J.tree_structure(seen['lazy_args'][1]) == J.tree_structure(st),
                 'the result is a controller': isinstance(got_c, ACT_Controller),
                 'the final state has the structure of the state': J.tree_structure(got_s) == J.tree_structure(st)}
        # the documented loop, unrolled
        c, s, n = controller(cfg, a), st, jnp.asarray(0, jnp.int32)
        for _ in range(bound):
            go = jnp.logical_and(jnp.logical_not(c.is_completely_halted), n < mx)
            new = layer.step(c, s)
            c, s = J.tree_map(lambda x, y: jnp.where(go, x, y), new, (c, s))
            n = n + go
        out = {}
        for pre, cc, ss in (('got', got_c, got_s), ('want', c, s)):
            if not isinstance(cc, ACT_Controller):
                continue
            sv = cc.save()
            out.update({pre + k: v for k, v in outputs(cfg, sv, facts).items()})
            facts[f'{pre}: no update is pending at the end'] = all(v is None for v in sv.updates.values())
            flat(ss, pre + 'state', out)
        out['steps'] = jnp.asarray(got_s['n'] - a['n0'])
        out['halted'] = jnp.asarray(got_c.is_completely_halted)
        out['!facts'] = facts
        return out

    def post(I, O):
        for k in O:
            if k.startswith('got'):
                w = O['want' + k[3:]]
                for i in np.ndindex(*w.shape):
                    yield f'the loop ends with what the documented loop ends with ({k[3:]})', same(O[k][i], w[i])
        n = O['steps'].reshape(-1)[0]
        m = I['max'].reshape(-1)[0] if maxkind == 'traced' else const(maxkind, n.dt)
        m = ir.conv(m, n.dt)
        yield 'never more iterations than the maximum', Or(mk('le', n, m), mk('le', m, const(0, n.dt)))
        yield 'it stops only when all have halted or the maximum is reached', Or(O['halted'].reshape(-1)[0], mk('le', m, n))
    ins = state_inputs(cfg, p='unit or nan')
    ins['hs'] = Inp((bound,) + cfg.batch, cfg.core, 'wild')
    ins['xs'] = Inp((bound,) + cfg.batch, 'f32', 'fin')
    ins['n0'] = Inp((), 'i32', ('range', 0, 1000))
    if maxkind == 'traced':
        ins['max'] = Inp((), 'i32', ('range', -1, bound))
    return Case(f'L01:{name}{cfg.name}-max{maxkind}-check{check}:fp', ins, run, post, unroll=bound, tol=1e-4, structural=True, loops=True)


def question_case(prop, cfg):
    """What the loop asks before every iteration (the references below ask it the same way)."""
    def post(I, O):
        t = thr(cfg, I)
        yield 'all have halted exactly when every cumulative probability is above the threshold', Iff(
            O['all'].reshape(-1)[0], And([mk('lt', t, x) for x in I['p'].reshape(-1)]))
        yield 'the loop runs a first time exactly when not all have halted and it may', Iff(
            mk('same', O['n'].reshape(-1)[0], const(1, 'i32')), And(Not(O['all'].reshape(-1)[0]), mk('lt', const(0, 'i32'), I['max'].reshape(-1)[0])))

    def run(a):
        class Once(Plain):
            def step(self, c, state):
                return ACT_Controller.load(c.save()), state + 1
        c, s = Once(cfg, a, {}).execute_act(jnp.asarray(0, jnp.int32), max_iterations=a['max'])
        return {'all': jnp.asarray(controller(cfg, a).is_completely_halted), 'n': s}
    ins = {**state_inputs(cfg, p='unit or nan'), 'max': Inp((), 'i32', ('range', -1, 1))}
    return Case(f'{prop}:question-{cfg.name}:fp', ins, run, post, unroll=1, loops=True)


def defaults_case():
    """What execute_act does when nothing but the state is given."""
    cfg = Cfg('d', (2,), {'x': L()}, eps=1e-4, dep=1.0)

    def run(a):
        seen = {}

        class Never(Plain):
            def step(self, c, state):
                return c.cache_update('x', a['u']).iterate_act(jnp.zeros([2])), state + 1
        c, s = Never(cfg, a, seen).execute_act(jnp.asarray(a['n0']))
        return {'n': s - a['n0'], 'it': c.iterations, 'it0': jnp.asarray(a['it']), '!facts': {
            'the depression constant defaults to one': seen['make_args'][1] == 1.0, 'no further arguments': seen['make_args'][2:] == ((), {})}}

    def post(I, O):
        for i in range(2):
            t = mk('lt', const(0.9999, 'f32'), I['p'][i])
            yield 'ten iterations by default', Implies(Not(t), mk('eq', O['it'][i], I['it'][i] + 10))
        al = And([mk('lt', const(0.9999, 'f32'), I['p'][i]) for i in range(2)])
        yield 'the state is passed through the loop', Implies(Not(al), mk('same', O['n'].reshape(-1)[0], const(10, 'i32')))
        yield 'nothing is run when all have halted', Implies(al, mk('same', O['n'].reshape(-1)[0], const(0, 'i32')))
    ins = {**state_inputs(cfg), 'u': Inp((2,), 'f32', 'fin'), 'n0': Inp((), 'i32', ('range', 0, 1000))}
    ins['it'] = Inp((2,), 'f32', 'nat')
    return Case('L01:defaults:fp', ins, run, post, unroll=10, loops=True)


GIVEN = (0.0, 1.0, 2.5, 0, 1, -0.5, np.float32(0.5), np.float64(0.25), np.array(0.5, np.float32), 1e-6, 64)
LIMITS = (0, 1, 3, np.int32(2), np.array(1), np.int8(3))


def given_case():
    """The depression constant goes to the layer as it is, and the limit counts, whatever it is made of."""
    cfg = Cfg('d', (2,), {'x': L()}, eps=1e-4, dep=1.0)

    def run(a):
        d, m, check = GIVEN[pick(a['d'], len(GIVEN))], LIMITS[pick(a['m'], len(LIMITS))], bool(pick(a['c'], 2))
        seen = {}

        class Never(Plain):
            def step(self, c, state):
                return c.cache_update('x', a['u']).iterate_act(jnp.zeros([2])), state + 1

            def make_controller(self, *args, **kwargs):
                super().make_controller(*args, **kwargs)
                return ControllerBuilder.new_builder(2).define_accumulator_by_shape('x', [2]).build()
        c, s = Never(cfg, a, seen).execute_act(jnp.asarray(a['n0']), d, m, check)
        got = seen['make_args'][1]
        return {'n': s - a['n0'], 'want': jnp.asarray(int(m), jnp.int32), 'd': jnp.asarray(got, jnp.float32), 'wantd': jnp.asarray(d, jnp.float32)}

    ins = {**state_inputs(cfg), 'u': Inp((2,), 'f32', 'fin'), 'n0': Inp((), 'i32', ('range', 0, 1000)),
           **{k: Inp((), 'i64', ('range', 0, n - 1), py=True) for k, n in (('d', len(GIVEN)), ('m', len(LIMITS)), ('c', 2))}}
    return Case('L01:given:fp', ins, run, lambda I, O: [('as many iterations as are allowed', mk('same', O['n'].reshape(-1)[0], O['want'].reshape(-1)[0])),
                                                     ('the depression constant reaches the layer as it is', req(O['d'].reshape(-1)[0], O['wantd'].reshape(-1)[0]))],
                unroll=3, loops=True, maxpaths=300)


USES = {        # state -> (initial state, update from the state, next state)
    'tensor': (lambda a: a['x'], lambda a, s: s, lambda a, s: s * 0.5),
    'pair': (lambda a: (a['x'], a['n']), lambda a, s: s[0] + s[1].astype(jnp.float32), lambda a, s: (s[0] + 1, s[1] + 1)),
    'none': (lambda a: None, lambda a, s: a['x'], lambda a, s: None),
    'empty': (lambda a: (), lambda a, s: a['x'], lambda a, s: ()),
    'flags': (lambda a: {'b': a['x'] > 0, 'i': a['n'].astype(jnp.int8), 'f': a['x'].astype(jnp.float16)},
              lambda a, s: jnp.where(s['b'], a['x'], s['f'].astype(jnp.float32)),
              lambda a, s: {'b': ~s['b'], 'i': s['i'] + jnp.int8(1), 'f': -s['f']}),
    'number': (lambda a: 2.0, lambda a, s: a['x'] + s, lambda a, s: s + 1),
    'count': (lambda a: 0, lambda a, s: a['x'] * jnp.where(s > 0, 2.0, 1.0), lambda a, s: s + 1),
    'numpy': (lambda a: np.array([1.5, -2], np.float32), lambda a, s: a['x'] + s, lambda a, s: s + 1),
    'pair type': (lambda a: Pair(a['x'], [a['n']]), lambda a, s: s.left, lambda a, s: Pair(s.left + 1, [s.right[0] * 2])),
    'memory': (lambda a: Memory(a['x'], 'tag'), lambda a, s: s.state, lambda a, s: Memory(-s.state, s.tag)),
    'controller': (lambda a: fresh_controller(a), lambda a, s: s.probabilities + a['x'],
                   lambda a, s: s.cache_update('x', a['x']).iterate_act(a['h'] * 0.25)),
}
CALLS = ('positional', 'keyword', 'traced', 'twice', 'jit', 'in a loop', 'vmap')


def fresh_controller(a):
    return ControllerBuilder.new_builder(2, epsilon=0.01).define_accumulator_by_shape('x', [2]).build()


def usage_case(use, how, check, M):
    """A layer the way the documentation writes one, with every kind of state and every way to call it."""
    first, upd, nxt = USES[use]

    class Lay(AbstractACTTemplate):
        def __init__(self, a):
            self.a = a

        def setup_lazy_parameters(self, c, s):
            pass

        def make_controller(self, initial_state, depression_constant, fill=0.5, *, more=1.0):
            b = self.new_builder(2, depression_constant=depression_constant, epsilon=0.01)
            return b.define_accumulator_by_shape('x', [2], fill=fill).define_accumulator_directly('y', [jnp.full([2, 1], more)]).build()

        def run_iteration(self, c, s):
            u = upd(self.a, s)
            c = c.cache_update('y', [u[:, None]]).cache_update('x', u).iterate_act(self.a['h'])
            return c, nxt(self.a, s)

    def run(a):
        facts = {}
        st = first(a)
        d, fill, more = 0.75, 0.5, 1.0
        if how == 'positional':
            fill, more = 3.0, 4.0
            r = Lay(a).execute_act(st, d, M, check, fill, more=more)
        elif how == 'keyword':
            more = 2.0
            r = Lay(a).execute_act(more=more, check_for_errors=check, max_iterations=M, depression_constant=d, initial_state=st)
        elif how == 'traced':
            d = a['d']
            r = Lay(a).execute_act(st, d, M, check)
        elif how == 'twice':
            lay = Lay(a)
            lay.execute_act(st, 1.0, 1, check, 7.0, more=9.0)
            r = lay.execute_act(st, d, M, check)
        elif how == 'jit':
            d = a['d']
            r = jax.jit(lambda st, d, a: Lay(a).execute_act(st, d, M, check))(st, d, a)
        elif how == 'in a loop':
            d = a['d']
            r = jax.lax.fori_loop(0, 1, lambda k, z: Lay(a).execute_act(z[1], d, M, check), Lay(a).execute_act(st, d, 0, check))
        else:
            d = a['d']
            r = J.tree_map(lambda v: v[0], jax.vmap(lambda b: Lay({**a, **b}).execute_act(first({**a, **b}), d, M, check))(J.tree_map(lambda v: v[None], {'x': a['x'], 'h': a['h']})))
        got_c, got_s = r
        facts['the final state has the structure of the state'] = J.tree_structure(got_s) == J.tree_structure(st)
        facts['the result is a controller'] = isinstance(got_c, ACT_Controller)
        c = ControllerBuilder.new_builder(2, depression_constant=d, epsilon=0.01)
        c = c.define_accumulator_by_shape('x', [2], fill=fill).define_accumulator_directly('y', [jnp.full([2, 1], more)]).build()
        s = st
        for _ in range(M):
            go = jnp.logical_not(c.is_completely_halted)
            new = Lay(a).run_iteration(c, s)
            c, s = J.tree_map(lambda x, y: jnp.where(go, x, y), new, (c, s))
        out = {}
        for pre, cc, ss in (('got', got_c, got_s), ('want', c, s)):
            for k, v in enumerate(J.tree_leaves(ss)):
                out[f'{pre}state{k}'] = jnp.asarray(v)
            for k, v in enumerate(J.tree_leaves(cc)):
                out[f'{pre}controller{k}'] = jnp.asarray(v)
        return {**out, '!facts': facts}

    def post(I, O):
        for k in O:
            if k.startswith('got'):
                for i in np.ndindex(*O[k].shape):
                    yield f'{use}, {how}: the loop ends with what the documented loop ends with ({k[3:]})', same(O[k][i], O['want' + k[3:]][i])
    ins = {'x': Inp((2,), 'f32', 'fin'), 'h': Inp((2,), 'f32', 'fin'), 'n': Inp((), 'i32', ('range', 0, 20)), 'd': Inp((), 'f32', 'dep')}
    return Case(f'L01:{use}-{how}-{check}-{M}:fp'.replace(' ', '_'), ins, run, post, unroll=M, structural=True, loops=True, tol=1e-4)


def nested_case(M, K, check):
    """A layer which runs another layer in every iteration."""
    class Inner(AbstractACTTemplate):
        def setup_lazy_parameters(self, c, s):
            pass

        def make_controller(self, s, d):
            return self.new_builder(2, depression_constant=d).define_accumulator_by_shape('i', [2]).build()

        def run_iteration(self, c, s):
            return c.cache_update('i', s[0]).iterate_act(s[1]), (s[0] * 0.5, s[1])

    class Outer(AbstractACTTemplate):
        def __init__(self, a):
            self.a = a

        def setup_lazy_parameters(self, c, s):
            pass

        def make_controller(self, s, d):
            return self.new_builder(2, depression_constant=d).define_accumulator_by_shape('o', [2]).build()

        def run_iteration(self, c, s):
            ic, (q, _) = Inner().execute_act((s, self.a['g']), 0.5, K, check)
            return c.cache_update('o', ic['i']).iterate_act(self.a['h']), q

    def unroll(c, s, step, n):
        for _ in range(n):
            go = jnp.logical_not(c.is_completely_halted)
            c, s = J.tree_map(lambda x, y: jnp.where(go, x, y), step(c, s), (c, s))
        return c, s

    def run(a):
        gc, gs = Outer(a).execute_act(a['x'], 0.75, M, check)

        def step(c, s):
            ic = ControllerBuilder.new_builder(2, depression_constant=0.5).define_accumulator_by_shape('i', [2]).build()
            ic, (q, _) = unroll(ic, (s, a['g']), Inner().run_iteration, K)
            return c.cache_update('o', ic['i']).iterate_act(a['h']), q
        wc = ControllerBuilder.new_builder(2, depression_constant=0.75).define_accumulator_by_shape('o', [2]).build()
        wc, ws = unroll(wc, a['x'], step, M)
        out = {}
        for pre, c, s in (('got', gc, gs), ('want', wc, ws)):
            for k, v in enumerate(J.tree_leaves((c, s))):
                out[f'{pre}{k}'] = jnp.asarray(v)
        return out

    def post(I, O):
        for k in O:
            if k.startswith('got'):
                for i in np.ndindex(*O[k].shape):
                    yield f'nested loops end with what the documented loops end with ({k[3:]})', same(O[k][i], O['want' + k[3:]][i])
    ins = {'x': Inp((2,), 'f32', 'fin'), 'h': Inp((2,), 'f32', 'fin'), 'g': Inp((2,), 'f32', 'fin')}
    return Case(f'L01:nested-{M}-{K}-{check}:fp', ins, run, post, unroll=max(M, K), structural=True, loops=True, tol=1e-4)


STYLES = ('two steps', 'reset and go on', 'silent edit', 'through a viewer', 'half reset', 'through a save')


def style_case(style, check, M):
    """Iterations which do more with the controller than one step."""
    class Lay(AbstractACTTemplate):
        def __init__(self, a):
            self.a = a

        def setup_lazy_parameters(self, c, s):
            pass

        def make_controller(self, s, d):
            return self.new_builder([2], depression_constant=d, epsilon=0.01).define_accumulator_by_shape('x', [2]).build()

        def run_iteration(self, c, s):
            a = self.a
            step = lambda c, h: c.cache_update('x', s['x']).iterate_act(h)
            nxt = {'x': s['x'] * 0.5, 'h': s['h'][::-1], 'out': s['out'] + 1}
            if style == 'two steps':
                c = step(step(c, s['h']), a['g'])
            elif style == 'reset and go on':        # a stream: whatever finished is put out, and its place taken again
                c = step(c, s['h'])
                nxt['out'] = s['out'] + c.make_viewer().halted_only().accumulators['x']
                c = c.reset_batches()
            elif style == 'half reset':
                c = step(c.reset_batches(), s['h'])
            elif style == 'silent edit':
                c = TensorEditor.edit_controller(step(c, s['h']), 'silence').set_iterations(c.iterations * 0).set_probabilities(s['h']).build()
            elif style == 'through a viewer':
                c = step(c, s['h'])
                nxt['out'] = s['out'] + c.make_viewer().mask_data(s['x'] > 0).accumulators['x']
                c = ACT_Controller.load(c.make_viewer().unhalted_only().save())
            else:
                c = step(ACT_Controller.load(c.save()), s['h'])
            return c, nxt

    def run(a):
        st = {'x': a['x'], 'h': a['h'], 'out': jnp.zeros([2])}
        gc, gs = Lay(a).execute_act(st, 0.75, a['max'], check)
        c = ControllerBuilder.new_builder([2], depression_constant=0.75, epsilon=0.01).define_accumulator_by_shape('x', [2]).build()
        s, n = st, jnp.asarray(0, jnp.int32)
        for _ in range(M):
            go = jnp.logical_and(jnp.logical_not(c.is_completely_halted), n < a['max'])
            c, s, n = J.tree_map(lambda x, y: jnp.where(go, x, y), (*Lay(a).run_iteration(c, s), n + 1), (c, s, n))
        out = {}
        for pre, q in (('got', (gc, gs)), ('want', (c, s))):
            for k, v in enumerate(J.tree_leaves(q)):
                out[f'{pre}{k}'] = jnp.asarray(v)
        return out

    def post(I, O):
        for k in O:
            if k.startswith('got'):
                for i in np.ndindex(*O[k].shape):
                    yield f'{style}: the loop ends with what the documented loop ends with ({k[3:]})', same(O[k][i], O['want' + k[3:]][i])
    ins = {'x': Inp((2,), 'f32', 'fin'), 'h': Inp((2,), 'f32', 'unit'), 'g': Inp((2,), 'f32', 'fin'), 'max': Inp((), 'i32', ('range', -1, M))}
    return Case(f'L01:{style}-{check}-{M}:fp'.replace(' ', '_'), ins, run, post, unroll=M, structural=True, loops=True, tol=1e-4)


def counter_case(bound, maxkind, check):
    """A layer that never halts runs exactly as often as it may, also with a high limit."""
    cfg = Cfg('d', (2,), {'x': L()}, eps=1e-4, dep=1.0)

    def run(a):
        class Never(Plain):
            def step(self, c, state):
                return ACT_Controller.load(c.save()), state + 1
        mx = a['max'] if maxkind == 'traced' else maxkind
        c, s = Never(cfg, a, {}).execute_act(jnp.asarray(a['n0']), max_iterations=mx, check_for_errors=check)
        return {'n': s - a['n0'], 'all': jnp.asarray(controller(cfg, a).is_completely_halted)}

    def post(I, O):
        al = O['all'].reshape(-1)[0]
        n = O['n'].reshape(-1)[0]
        m = I['max'].reshape(-1)[0] if maxkind == 'traced' else const(maxkind, 'i32')
        m = mk('ite', mk('lt', m, const(0, 'i32')), const(0, 'i32'), m)
        yield 'a layer that never halts runs exactly the maximum number of times', Implies(Not(al), mk('same', n, m))
        yield 'nothing is run when all have halted', Implies(al, mk('same', n, const(0, 'i32')))
    ins = {**state_inputs(cfg), 'n0': Inp((), 'i32', ('range', 0, 1000))}
    if maxkind == 'traced':
        ins['max'] = Inp((), 'i32', ('range', -1, bound))
    return Case(f'L01:counter-{maxkind}-{bound}-{check}:fp', ins, run, post, unroll=bound, loops=True)


def l01(tier):
    out = [counter_case(140 if tier == 'quick' else 300, 'traced', True), counter_case(25, 25, False), counter_case(300, 300, True)]
    if tier != 'quick':
        out.append(counter_case(700, 700, False))
    C = [Cfg('one', (2,), {'x': L()}, eps=1e-4, dep=1.0), Cfg('scalar', (), {'x': L(2)}, dep=1.0),
         Cfg('tree', (2,), {'s': {'m': L(2), 'k': [L()]}, 'o': L(3)}, eps=0.01, dep=0.5),
         Cfg('grid', (2, 2), {'x': L()}, eps=1e-4, dep=1.0), Cfg('f16', (2,), {'x': L(2, dt='f16')}, core='f16', eps=0.01, dep=1.0),
         Cfg('f64', (2,), {'x': L(dt='f64'), 'y': L(2)}, core='f64', eps=0.01, dep=1.0)]
    for k, cfg in enumerate(C):
        out.append(loop_case(cfg, 2 if tier == 'quick' else 4, True, 'traced'))
        out.append(loop_case(cfg, 2 if tier == 'quick' else 3, False, 'traced'))
    for m in (0, 1, 3) if tier == 'quick' else (0, 1, 2, 3, 5, 8):
        out.append(loop_case(C[0], max(m, 1), True, m))
        out.append(loop_case(C[2], max(m, 1), False, m))
    out += [question_case('L01', cfg) for cfg in C]
    out += [defaults_case(), given_case()]
    for k, use in enumerate(USES):
        for q, how in enumerate(CALLS):
            if tier != 'quick' or (k + q) % 3 == 0:
                if how in ('vmap', 'in a loop') and use in ('number', 'count', 'controller', 'numpy', 'none', 'empty'):
                    continue
                out.append(usage_case(use, how, (k + q) % 2 == 0, 2 if tier == 'quick' else 3))
    out += [style_case(x, k % 2 == 0, 2 if tier == 'quick' else 3) for k, x in enumerate(STYLES)]
    out += [nested_case(2, 2, True), nested_case(1, 2, False)]
    return out


# L02 ------------------------------------------------------------------------------------
class Odd:
    """Not a controller, though it has all a controller has."""

    def __init__(self, c):
        self._c = c

    def __getattr__(self, k):
        if k == '_c':
            raise AttributeError(k)
        return getattr(self._c, k)


L2CFG = Cfg('c', (2,), {'x': L(), 'y': L(2)}, eps=1e-4, dep=1.0)
MAKES = ('good', 'not a controller', 'none', 'a builder', 'empty', 'a pair', 'the state', 'a subclass', 'without tensors')
GOOD_MAKE = (0, 7, 8)


class Special(ACT_Controller):
    """A user's own kind of controller."""


def make_kind(a, k):
    c = controller(L2CFG, a)
    if k == 0:
        return c
    if k == 1:
        return Odd(c)
    if k == 2:
        return None
    if k == 3:
        return ControllerBuilder.new_builder(2).define_accumulator_by_shape('x', [2])
    if k == 4:
        return ControllerBuilder.new_builder(2).build()
    if k == 5:
        return (c, jnp.zeros([2]))
    if k == 7:
        return Special(c.save())
    if k == 8:
        return ControllerBuilder.new_builder(2).define_accumulator_directly('x', {'a': []}).build()
    return jnp.zeros([2])


class Step(collections.namedtuple('Step', ['controller', 'state'])):
    pass


RUNS = ('good', 'a list', 'a triple', 'a single', 'only the controller', 'no controller', 'the same controller', 'nothing committed of one',
        'nothing committed of all', 'none', 'empty tuple', 'lookalike', 'swapped', 'uncommitted second', 'a named pair', 'two steps', 'last update none', 'a subclass')


def run_kind(a, c, s, k):
    done = lambda c: c.cache_update('x', a['u']).cache_update('y', a['v']).iterate_act(a['h'])
    n = done(c)
    if k == 0: return n, s
    if k == 1: return [n, s]
    if k == 2: return n, s, s
    if k == 3: return (n,)
    if k == 4: return n
    if k == 5: return s, s
    if k == 6: return c, s
    if k == 7: return c.cache_update('x', a['u']), s
    if k == 8: return c.cache_update('x', a['u']).cache_update('y', a['v']), s
    if k == 9: return None
    if k == 10: return ()
    if k == 11: return Odd(n), s
    if k == 12: return s, n
    if k == 13: return n.cache_update('y', a['v']), s
    if k == 14: return Step(n, s)
    if k == 15: return done(n), s
    if k == 16: return n, None
    return Special(n.save()), s


GOOD_RUN = (0, 14, 15, 16, 17)


def make_case(via, check):
    def run(a):
        k = pick(a['k'], len(MAKES))
        got = {}

        class Lay(Plain):
            def make_controller(self, *args, **kw):
                got['args'] = args, kw
                got['c'] = make_kind(a, k)
                return got['c']

            def step(self, c, s):
                return c.cache_update('x', a['u']).cache_update('y', a['v']).iterate_act(a['h']), s
        lay = Lay(L2CFG, a, {})
        if via == 'wrapper':
            r = ContractValidationWrapper(lay, check).make_controller('s', 0.5, 'z', q=3)
            facts = {'what the layer made is returned': r is got['c'], 'the arguments are passed on': got['args'] == (('s', 0.5, 'z'), {'q': 3})}
        else:
            lay.execute_act(a['h'], 1.0, 1, check)
            facts = {'ran': True}
        return {'!facts': facts}

    def raises(I):
        if not check:
            return const(False, 'b')
        return Not(Or([mk('same', I['k'].reshape(-1)[0], const(g, 'i64')) for g in GOOD_MAKE]))
    ins = {**state_inputs(L2CFG), 'k': Inp((), 'i64', ('range', 0, len(MAKES) - 1 if via == 'wrapper' else 6 if check else 0), py=True),
           'u': Inp((2,), 'f32', 'fin'), 'v': Inp((2, 2), 'f32', 'fin'), 'h': Inp((2,), 'f32', 'unit')}
    return Case(f'L02:make-{via}-{check}:fp', ins, run, lambda I, O: [], raises=raises)


def run_case(via, check, pending):
    """pending: the controller handed to the layer already has every update cached."""
    def run(a):
        k = pick(a['k'], len(RUNS))
        got = {}

        class Lay(Plain):
            def step(self, c, s):
                if pending:
                    got['r'] = (c.iterate_act(a['h']), s) if k == 0 else (c, s) if k == 6 else run_kind(a, c.iterate_act(a['h']), s, k)
                else:
                    got['r'] = run_kind(a, c, s, k)
                return got['r']
        lay = Lay(L2CFG, a, {})
        c = controller(L2CFG, a, updates=['x', 'y'] if pending else None)
        if via == 'wrapper':
            r = ContractValidationWrapper(lay, check).run_iteration(c, a['h'])
            facts = {'what the layer returned is returned': r is got['r']}
        else:
            lay.make_controller = lambda *q, **w: c
            lay.execute_act(a['h'], 1.0, 1, check)
            facts = {'ran': True}
        return {'!facts': facts}

    def raises(I):
        k = I['k'].reshape(-1)[0]
        if not check:
            return const(False, 'b')
        good = GOOD_RUN
        return Not(Or([mk('same', k, const(g, 'i64')) for g in good]))
    hi = len(RUNS) - 1
    if via != 'wrapper':
        hi = 15 if check else 0
    ins = {**state_inputs(L2CFG, update='fin'), 'k': Inp((), 'i64', ('range', 0, hi), py=True),
           'u': Inp((2,), 'f32', 'fin'), 'v': Inp((2, 2), 'f32', 'fin'), 'h': Inp((2,), 'f32', 'unit')}
    if via == 'execute':        # a controller on which the loop runs at all
        ins['p'] = Inp((2,), 'f32', ('range', 0, 0.5))
    return Case(f'L02:run-{via}-{check}-{pending}:fp', ins, run, lambda I, O: [], raises=raises)


def twice_case(via, handled):
    """The same layer used twice: what the first call was told and how it ended does not change the second."""
    def run(a):
        k = [(pick(a[f'k{i}'], 2), pick(a[f'e{i}'], 2)) for i in (0, 1)]
        got = {}

        class Lay(Plain):
            def step(self, c, s):
                got['r'] = run_kind(a, c, s, 0 if got['k'] == 0 else 6)
                return got['r']
        lay = Lay(L2CFG, a, {})
        ended = []
        for i, (kind, check) in enumerate(k):
            got['k'] = kind
            try:
                if via == 'wrapper':
                    ContractValidationWrapper(lay, bool(check)).run_iteration(controller(L2CFG, a), a['h'])
                elif i and not check:
                    lay.execute_act(a['h'], 1.0, 1, check_for_errors=False)
                elif i and handled:
                    lay.execute_act(a['h'], max_iterations=1)
                else:
                    lay.execute_act(a['h'], 1.0, 1, bool(check))
                ended.append(False)
            except Exception:
                ended.append(True)
        want = [bool(kind and check) for kind, check in k]
        return {'!facts': {f'call {i}: a broken contract is refused exactly when errors are checked': w == e for i, (w, e) in enumerate(zip(want, ended))}}
    ins = {**state_inputs(L2CFG), **{f'{n}{i}': Inp((), 'i64', ('range', 0, 1), py=True) for n in 'ke' for i in (0, 1)},
           'u': Inp((2,), 'f32', 'fin'), 'v': Inp((2, 2), 'f32', 'fin'), 'h': Inp((2,), 'f32', 'unit')}
    if via == 'execute':
        ins['p'] = Inp((2,), 'f32', ('range', 0, 0.5))
    return Case(f'L02:twice-{via}-{handled}:fp', ins, run, lambda I, O: [])


def l02(tier):
    out = [twice_case('wrapper', False), twice_case('execute', False), twice_case('execute', True)]
    for check in (True, False):
        for via in ('wrapper', 'execute'):
            out.append(make_case(via, check))
            out.append(run_case(via, check, False))
        out.append(run_case('wrapper', check, True))
    return out


# F01 ------------------------------------------------------------------------------------
def f01(tier):
    out = [question_case('F01', Cfg('dep', (2,), {'x': L()}, eps=1e-4, dep=1.0))]
    for b, s, o, m in ((2, 2, 1, 2), (1, 1, 2, 3), (3, 1, 1, 1)) if tier == 'quick' else ((2, 2, 1, 2), (1, 1, 2, 3), (3, 1, 1, 1), (2, 2, 2, 3), (4, 2, 3, 2)):
        for stateful in (False, True):
            out.append(flax_case(b, s, o, m, stateful))
    for b, m in ((1, 1), (2, 2), (1, 3)) if tier == 'quick' else ((1, 1), (2, 2), (1, 3), (3, 2), (2, 4), (1, 6)):
        out.append(flax_small_case(b, m))
    out.append(flax_setup_case())
    return out


def flax_small_case(B, M):
    """A layer without transcendental functions: its halting input is a parameter, its state grows by one."""
    def layer():
        from flax import linen as nn
        from src.jax_act.frameworks.flax import FlaxACTLayer

        class Net(FlaxACTLayer):
            def setup(self):
                self.h = self.param('h', nn.initializers.ones, (B,))
                self.step = self.variable('stats', 'step', lambda: jnp.ones([B]))

            def make_controller(self, initial_state, depression_constant, *, fill=0.0):
                b = self.new_builder(B, depression_constant=depression_constant)
                return b.define_accumulator_by_shape('o', [B], fill=fill).build()

            def run_iteration(self, c, state):
                state = state + self.step.value
                return c.cache_update('o', state).iterate_act(self.h), state

            def __call__(self, x):
                c, s = self.execute_act(x, 1.0, M, True, fill=0.5)
                return c['o'], c.iterations, c.residuals, c.probabilities, s
        return Net()

    def run(a):
        net = layer()
        var = {'params': {'h': a['h']}, 'stats': {'step': a['step']}}
        runs = {'plain': net.apply(var, a['x']),
                'with mutable parameters': net.apply(var, a['x'], mutable=['params'])[0],
                'with mutable statistics': net.apply(var, a['x'], mutable=['stats'])[0],
                'with everything mutable': net.apply(var, a['x'], mutable=['params', 'stats'])[0]}
        c = ControllerBuilder.new_builder(B).define_accumulator_by_shape('o', [B], fill=0.5).build()
        s = a['x']
        for _ in range(M):
            go = jnp.logical_not(c.is_completely_halted)
            s2 = s + a['step']
            c2 = c.cache_update('o', s2).iterate_act(a['h'])
            c, s = J.tree_map(lambda x, y: jnp.where(go, x, y), (c2, s2), (c, s))
        out = {f'want{k}': w for k, w in enumerate((c['o'], c.iterations, c.residuals, c.probabilities, s))}
        for r, (_, vals) in enumerate(runs.items()):
            out.update({f'got{r}.{k}': v for k, v in enumerate(vals)})
        return out

    labels = ('plain', 'with mutable parameters', 'with mutable statistics', 'with everything mutable')

    def post(I, O):
        for r, l in enumerate(labels):
            for k in range(5):
                for i in np.ndindex(*O[f'want{k}'].shape):
                    yield f'the layer computes what the documented loop computes ({l})', same(O[f'got{r}.{k}'][i], O[f'want{k}'][i])
    ins = {'x': Inp((B,), 'f32', 'fin'), 'h': Inp((B,), 'f32', 'fin'), 'step': Inp((B,), 'f32', 'fin')}
    return Case(f'F01:small-{B}-{M}:fp', ins, run, post, structural=True, loops=True)


def flax_layer(S, O, M, stateful, log):
    from flax import linen as nn
    from src.jax_act.frameworks.flax import FlaxACTLayer

    class Net(FlaxACTLayer):
        def setup(self):
            self.inp = nn.Dense(S)
            self.upd = nn.Dense(S)
            self.outp = nn.Dense(O)
            self.prob = nn.Dense(1)
            if stateful:
                self.scale = self.variable('stats', 'scale', lambda: jnp.full([O], 2.0))

        def make_controller(self, initial_state, *args, **kwargs):
            log.append('make')
            b = self.new_builder(initial_state.shape[0])
            return b.define_accumulator_by_shape('s', [initial_state.shape[0], S]).define_accumulator_by_shape('o', [initial_state.shape[0], O]).build()

        def run_iteration(self, c, state, *args, **kwargs):
            log.append('run')
            state = nn.relu(self.upd(state)) + state
            o = self.outp(state)
            if stateful:
                o = o * self.scale.value
            h = jnp.squeeze(nn.sigmoid(self.prob(state)), axis=-1)
            return c.cache_update('s', state).cache_update('o', o).iterate_act(h), state

        def __call__(self, x):
            c, s = self.execute_act(self.inp(x), max_iterations=M)
            return c['s'], c['o'], c.iterations, c.residuals, c.probabilities, s
    return Net()


def flax_case(B, S, O_, M, stateful):
    def reference(P, x, scale):
        dense = lambda q, v: jnp.dot(v, P[q + 'k']) + P[q + 'b']
        c = ControllerBuilder.new_builder(B).define_accumulator_by_shape('s', [B, S]).define_accumulator_by_shape('o', [B, O_]).build()
        s = dense('inp', x)
        for _ in range(M):
            go = jnp.logical_not(c.is_completely_halted)
            s2 = jnp.maximum(dense('upd', s), 0) + s
            o = dense('outp', s2)
            if stateful:
                o = o * scale
            h = jnp.squeeze(jax.nn.sigmoid(dense('prob', s2)), axis=-1)
            c2 = c.cache_update('s', s2).cache_update('o', o).iterate_act(h)
            c, s = J.tree_map(lambda x, y: jnp.where(go, x, y), (c2, s2), (c, s))
        return c['s'], c['o'], c.iterations, c.residuals, c.probabilities, s

    def run(a):
        log = []
        net = flax_layer(S, O_, M, stateful, log)
        names = ('inp', 'upd', 'outp', 'prob')
        var = {'params': {q: {'kernel': a[q + 'k'], 'bias': a[q + 'b']} for q in names}}
        if stateful:
            var['stats'] = {'scale': a['scale']}
        with jax.ensure_compile_time_eval():
            seed = jax.random.PRNGKey(0)
        init = jax.eval_shape(lambda k, x: net.init(k, x), seed, jnp.zeros([B, 2]))
        want = {'params': {q: {'kernel': tuple(a[q + 'k'].shape), 'bias': tuple(a[q + 'b'].shape)} for q in names}}
        if stateful:
            want['stats'] = {'scale': (O_,)}
        facts = {'initialisation creates exactly the parameters of the layer': J.tree_map(lambda v: tuple(v.shape), J.tree_map(lambda v: v, dict(init))) == want}
        only = jax.eval_shape(lambda k, x: net.init(k, x, mutable=['params', 'stats'] if stateful else ['params']), seed, jnp.zeros([B, 2]))
        facts['initialisation of the parameters alone creates them'] = J.tree_map(lambda v: tuple(v.shape), dict(only)) == want
        every = jax.eval_shape(lambda k, x: net.init(k, x, mutable=True), seed, jnp.zeros([B, 2]))
        facts['initialisation with everything mutable creates the same'] = J.tree_map(lambda v: tuple(v.shape), dict(every)) == want
        for given in ('nothing', 'half'):
            have = {} if given == 'nothing' else {'params': {'inp': var['params']['inp']}}
            made = jax.eval_shape(lambda k, x: net.apply(have, x, rngs={'params': k, 'stats': k}, mutable=['params', 'stats'] if stateful else ['params'])[1], seed, jnp.zeros([B, 2]))
            facts[f'applied with {given} of its parameters, where they may change, it creates them'] = J.tree_map(lambda v: tuple(v.shape), dict(made)) == want
        facts['a layer under initialisation computes the same outputs'] = [tuple(v.shape) for v in jax.eval_shape(
            lambda k, x: net.init_with_output(k, x)[0], seed, jnp.zeros([B, 2]))] == [(B, S), (B, O_), (B,), (B,), (B,), (B, S)]
        got = net.apply(var, a['x'])
        # initialisation also runs the layer; with the parameters given it must agree
        again, _ = net.apply(var, a['x'], mutable=['params'])
        ref = reference(a, a['x'], a.get('scale'))
        out = {}
        for k, (g, g2, w) in enumerate(zip(got, again, ref)):
            out[f'got{k}'], out[f'mut{k}'], out[f'want{k}'] = g, g2, w
        out['!facts'] = facts
        return out

    def post(I, O):
        for k in range(6):
            for i in np.ndindex(*O[f'want{k}'].shape):
                yield 'the layer computes what the documented loop computes', same(O[f'got{k}'][i], O[f'want{k}'][i])
                yield 'running with mutable parameters computes the same', same(O[f'mut{k}'][i], O[f'want{k}'][i])
    ins = {'x': Inp((B, 2), 'f32', 'fin')}
    for q, (i, o) in {'inp': (2, S), 'upd': (S, S), 'outp': (S, O_), 'prob': (S, 1)}.items():
        ins[q + 'k'] = Inp((i, o), 'f32', 'fin')
        ins[q + 'b'] = Inp((o,), 'f32', 'fin')
    if stateful:
        ins['scale'] = Inp((O_,), 'f32', 'fin')
    return Case(f'F01:flax-{B}-{S}-{O_}-{M}-{stateful}:fp', ins, run, post, unroll=M, tol=1e-3, structural=True, loops=True)


def flax_setup_case():
    def run(a):
        from src.jax_act.frameworks.flax import FlaxACTLayer

        class NoSetup(FlaxACTLayer):
            def make_controller(self, s, *args, **kw):
                return self.new_builder(2).define_accumulator_by_shape('x', [2]).build()

            def run_iteration(self, c, s):
                return c.cache_update('x', s).iterate_act(s), s

            def __call__(self, x):
                return self.execute_act(x)[0]['x']
        return {'o': NoSetup().apply({}, a['x'])}
    return Case('F01:no-setup:fp', {'x': Inp((2,), 'f32', 'unit')}, run, lambda I, O: [], raises=lambda I: const(True, 'b'), jit_replay=False)
