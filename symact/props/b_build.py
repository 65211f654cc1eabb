"""B: the builder.  E: the editor."""
import warnings
from ..common import *
from .. import ir, pysym
from ..ir import And, Or, Not, Implies, If, same, Iff, conv, mk, const
from ..pysym import FakeArray
from .c_proto import full_out, pend_sets, identity_post, key, pick, refused, saved
from .c_step import leaf_inputs
from src.jax_act.core.tensoreditor import TensorEditor
from src.jax_act.layers.core import AbstractControllerContract


# B01 ------------------------------------------------------------------------------------
def b01(tier):
    out = []
    for cfg in cfgs(tier):
        out.append(fresh(cfg))
    out += settings_case('builder') + settings_case('layer') + epsilon_cases() + [unsaid_case('builder'), unsaid_case('layer')]
    for k in range(3 if tier == 'quick' else 4):
        out.append(program_case(k, 2 if tier == 'quick' else 3))
    for bs, shape in ((3, (3,)), ([2], (2,)), ([2, 3], (2, 3)), ([], ()), ((2, 1), (2, 1)), (1, (1,)), (7, (7,)), (0, (0,)), ([0], (0,)), ([2, 0], (2, 0)), ((0, 3), (0, 3)),
                      (np.int64(2), (2,)), ([np.int64(2), np.int32(3)], (2, 3)), (np.array([2, 3]), (2, 3)), ((np.int8(2), 1), (2, 1))):
        for dt in (None, 'f32', 'f16', 'bf16', 'f64', 'f32 of 64'):
            x64 = dt in ('f64', 'f32 of 64')
            dt = dt and dt[:4].strip()

            def run(a, bs=bs, dt=dt):
                b = ControllerBuilder.new_builder(bs, core_dtype=None if dt is None else ir.np_of(dt), epsilon=0.125, depression_constant=0.25)
                s = b.build().save()
                return {'p': s.probabilities, 'r': s.residuals, 'it': s.iterations, 'eps': float(s.epsilon), 'dep': float(s.depression_constant),
                        '!facts': {'nothing is accumulated yet': len(s.accumulators) == len(s.defaults) == len(s.updates) == 0}}

            def post(I, O):
                for f in ('p', 'r', 'it'):
                    for x in O[f].reshape(-1):
                        yield f'{f} starts at zero', mk('eq', x, const(0, x.dt))
                yield 'epsilon is kept', mk('eq', O['eps'].reshape(-1)[0], const(.125, 'f64'))
                yield 'the depression constant is kept', mk('eq', O['dep'].reshape(-1)[0], const(.25, 'f64'))
            d = dt or 'f32'
            outs = {'p': Out(shape, d), 'r': Out(shape, d), 'it': Out(shape, d), 'eps': Out((), None), 'dep': Out((), None)}
            out.append(Case(f'B01:new-{type(bs).__name__}{bs}-{dt}-{x64}'.replace(' ', '') + ':fp', {'unused': Inp((), 'f32', 'fin')}, run, post, outs, jit_replay=False, x64=x64))
    return out


def unsaid_case(via):
    """Settings that are not given are float32, 1e-4 and 1; given in their order or by name, they are the same."""
    new = ControllerBuilder.new_builder if via == 'builder' else lambda *k, **w: AbstractControllerContract.new_builder(None, *k, **w)

    def run(a):
        facts, out = {}, {}
        for k, (args, kw, dt, e, d) in enumerate((
                ((2,), {}, 'f32', 1e-4, 1.0), (([2, 1],), {}, 'f32', 1e-4, 1.0), ((2, jnp.float16), {}, 'f16', None, 1.0),
                ((2, None, 0.125), {}, 'f32', 0.125, 1.0), ((2, jnp.float16, 0.25, a['d']), {}, 'f16', 0.25, None),
                ((), dict(batch_shape=2, depression_constant=a['d']), 'f32', 1e-4, None), ((2,), dict(epsilon=0.5), 'f32', 0.5, 1.0),
                ((), dict(depression_constant=a['d'], epsilon=0.25, core_dtype=jnp.float16, batch_shape=[2]), 'f16', 0.25, None))):
            s = new(*args, **kw).define_accumulator_by_shape('x', [2, 1]).build().save()
            facts[f'{k}: the dtype'] = all(t.dtype == np.dtype(ir.np_of(dt)) for t in (s.probabilities, s.residuals, s.iterations))
            facts[f'{k}: epsilon'] = e is None or s.epsilon == e
            if d is None:
                out[f'{k}'] = s.depression_constant
            else:
                facts[f'{k}: the depression constant is one'] = float(s.depression_constant) == d
        out['!facts'] = facts
        return out

    def post(I, O):
        for k in O:
            yield 'the depression constant is kept', mk('eq', O[k].reshape(-1)[0], ir.conv(I['d'].reshape(-1)[0], O[k].reshape(-1)[0].dt))
    return Case(f'B01:unsaid-{via}:fp', {'d': Inp((), 'f64', 'number', py=True)}, run, post)


def settings_case(via):
    """Every depression constant, given as a Python number or traced, is the one the controller has."""
    def new(d):
        f = ControllerBuilder.new_builder if via == 'builder' else lambda *k, **w: AbstractControllerContract.new_builder(None, *k, **w)
        return f([2], depression_constant=d).define_accumulator_by_shape('x', [2]).build().save().depression_constant

    def run(a):
        return {'d': new(a['d'])}

    def post(I, O):
        yield 'the depression constant is kept', mk('eq', O['d'].reshape(-1)[0], I['d'].reshape(-1)[0])

    def run2(a):
        return {'d': jax.jit(new)(a['d'])}
    return [Case(f'B01:depression-{via}:fp', {'d': Inp((), 'f64', 'number', py=True)}, run, post),
            Case(f'B01:depression-traced-{via}:fp', {'d': Inp((), 'f32', 'fin')}, run2, post, traces=True)]


def epsilon_cases():
    """Every usable epsilon is kept as it is, in each core dtype."""
    out = []
    for via in ('builder', 'layer'):
        new = ControllerBuilder.new_builder if via == 'builder' else lambda *k, **w: AbstractControllerContract.new_builder(None, *k, **w)
        for dt in (None, 'f32', 'f16', 'bf16'):
            def run(a, dt=dt, new=new):
                b = new(2, core_dtype=None if dt is None else ir.np_of(dt), epsilon=a['e'])
                c = b.define_accumulator_by_shape('x', [2, 1]).build()
                return {'b': b.epsilon, 'e': c.save().epsilon}

            def post(I, O):
                for k in 'be':
                    yield 'epsilon is kept', mk('eq', O[k].reshape(-1)[0], I['e'].reshape(-1)[0])

            def pre(I, dt=dt):
                e = I['e'].reshape(-1)[0]
                return [mk('le', const(EPSRES[dt or 'f32'], 'f64'), e), mk('lt', e, const(1, 'f64'))]
            out.append(Case(f'B01:epsilon-{via}-{dt}:fp', {'e': Inp((), 'f64', 'number', py=True)}, run, post, pre=pre, jit_replay=False))
    return out


def fresh(cfg):
    def run(a):
        facts = {}
        b = ControllerBuilder.new_builder(list(cfg.batch), core_dtype=ir.np_of(cfg.core), epsilon=0.25, depression_constant=a['d'])
        for n in cfg.accs:
            b = b.define_accumulator_directly(n, tree(cfg, a, 'def', n))
        s = b.build().save()
        facts['accumulators, defaults and updates have the same names'] = set(s.updates) == set(s.defaults) == set(s.accumulators) == set(cfg.accs)
        facts['no update is pending'] = all(v is None for v in s.updates.values())
        facts['the builder is immutable'] = refused(b)
        facts['the controller is immutable'] = refused(b.build())
        out = outputs(cfg, s, facts)
        out['dep'], out['eps'] = jnp.asarray(s.depression_constant, jnp.float32), jnp.asarray(s.epsilon, jnp.float32)
        out['!facts'] = facts
        return out

    def post(I, O):
        for f in ('p', 'r', 'it'):
            for x in O[f].reshape(-1):
                yield f'{f} starts at zero', mk('eq', x, const(0, x.dt))
        for n, k, l in cfg.leaf_list():
            for i in np.ndindex(*cfg.shape(l)):
                yield 'the accumulator starts as its definition', same(O[key('acc', n, k)][i], I[key('def', n, k)][i])
                yield 'the default is the definition', same(O[key('def', n, k)][i], I[key('def', n, k)][i])
        yield 'the depression constant is kept', same(O['dep'].reshape(-1)[0], I['d'].reshape(-1)[0])
        yield 'epsilon is kept', mk('eq', O['eps'].reshape(-1)[0], const(.25, 'f32'))
    ins = {**leaf_inputs(cfg, 'def', 'any'), 'd': Inp((), 'f32', 'fin', weak=True)}
    outs = {**declared(cfg), 'dep': Out((), 'f32'), 'eps': Out((), 'f32')}
    return Case(f'B01:fresh-{cfg.name}:fp', ins, run, post, outs, traces=True)


# a program over the builder: each operation is a symbolic choice
BOPS = ('x = A', 'x = B', 'y = {A, B}', 'z by shape', 'delete x', 'delete y', 'nothing')


def program_case(start, K):
    def run(a):
        b = ControllerBuilder.new_builder([2], epsilon=0.5, depression_constant=0.75)
        model = {}
        if start >= 1:
            b, model = b.define_accumulator_directly('x', a['A']), {'x': a['A']}
        if start >= 2:
            b = b.define_accumulator_directly('y', [a['B']])
            model['y'] = [a['B']]
        if start >= 3:
            b = b.define_accumulator_by_shape('z', [2, 1], fill=7.0)
            model['z'] = jnp.full([2, 1], 7.0)
        trail = [(b, dict(model))]
        facts = {}
        for k in range(K):
            op = pick(a[f'op{k}'], len(BOPS))
            try:
                if op == 0:
                    b, model = b.define_accumulator_directly('x', a['A']), {**model, 'x': a['A']}
                elif op == 1:
                    b, model = b.define_accumulator_directly('x', a['B']), {**model, 'x': a['B']}
                elif op == 2:
                    t = {'m': a['A'], 'n': [a['B']]}
                    b, model = b.define_accumulator_directly('y', t), {**model, 'y': t}
                elif op == 3:
                    b, model = b.define_accumulator_by_shape('z', {'q': [2, 3]}, jnp.float16, 1.5), {**model, 'z': {'q': jnp.full([2, 3], 1.5, jnp.float16)}}
                elif op in (4, 5):
                    n = 'xy'[op - 4]
                    had = n in model
                    b = delete_definition(b, n)
                    facts[f'{k}: deleting what is not defined is refused'] = had
                    model = {q: v for q, v in model.items() if q != n}
            except KeyError:
                facts[f'{k}: deleting what is defined works'] = not had
            trail.append((b, dict(model)))
        out = {}
        for q, (b, model) in enumerate(trail):      # every builder on the way must still say what it said
            s = b.build().save()
            facts[f'{q}: exactly the defined accumulators'] = set(s.accumulators) == set(s.defaults) == set(s.updates) == set(model)
            facts[f'{q}: no update pending'] = all(v is None for v in s.updates.values())
            for n in model:
                for w, d in (('acc', s.accumulators), ('def', s.defaults)):
                    if n not in d:
                        continue
                    facts[f'{q}: {w} {n} has its structure'] = jax.tree_util.tree_structure(d[n]) == jax.tree_util.tree_structure(model[n])
                    for k, (g, e) in enumerate(zip(jax.tree_util.tree_leaves(d[n]), jax.tree_util.tree_leaves(model[n]))):
                        facts[f'{q}: {w} {n} {k} has its dtype'] = g.dtype == e.dtype
                        out[f'got{q}{w}{n}{k}'], out[f'want{q}{w}{n}{k}'] = g, e
            out[f'got{q}p'], out[f'want{q}p'] = s.probabilities, jnp.zeros([2])
            out[f'got{q}e'], out[f'want{q}e'] = jnp.asarray(s.epsilon), jnp.asarray(0.5)
            out[f'got{q}d'], out[f'want{q}d'] = jnp.asarray(s.depression_constant), jnp.asarray(0.75)
        return {**out, '!facts': facts}
    from .u_utils import pair_post
    ins = {'A': Inp((2, 3), 'f32', 'any'), 'B': Inp((2,), 'f32', 'any')}
    for k in range(K):
        ins[f'op{k}'] = Inp((), 'i64', ('range', 0, len(BOPS) - 1), py=True)
    return Case(f'B01:program{K}-{start}:fp', ins, run, pair_post('accumulators and defaults are the last definitions'), maxpaths=3000)


# B02 ------------------------------------------------------------------------------------
def b02(tier):
    """Acceptance over every double, and that an accepted controller can halt at all."""
    out = []
    for dt in (None, 'f32', 'f16', 'bf16', 'f64'):
        core = dt or 'f32'
        for batch in ([2], []):
            for via in ('builder', 'layer'):
                if via == 'layer' and batch == []:
                    continue

                def run(a, dt=dt, batch=batch, via=via):
                    e = a['eps']
                    kw = dict(core_dtype=None if dt is None else ir.np_of(dt), epsilon=e)
                    b = ControllerBuilder.new_builder(batch, **kw) if via == 'builder' else AbstractControllerContract.new_builder(None, batch, **kw)
                    got = b.build().save().epsilon
                    return {'eps': got if isinstance(got, pysym.Sym) else float(got)}

                def raises(I):
                    e = I['eps'].reshape(-1)[0]
                    return Not(And(const(0., 'f64') < e, e < const(1., 'f64')))

                def post(I, O, core=core):
                    e, g = I['eps'].reshape(-1)[0], O['eps'].reshape(-1)[0]
                    t = conv(conv(const(1., 'f64') - g, 'f32'), core) if core != 'f32' else conv(const(1., 'f64') - g, 'f32')
                    t = conv(const(1., 'f64') - g, core)
                    yield 'a cumulative probability of one is past the threshold', t < const(1, core)
                    yield 'a cumulative probability of zero is not past the threshold', t >= const(0, core)
                    yield 'epsilon is the one asked for, unless the dtype cannot resolve it', \
                        Or(mk('eq', g, e), And(e < const(EPSRES[core], 'f64'), mk('le', g, const(EPSRES[core], 'f64')), e <= g))
                out.append(Case(f'B02:{via}-{dt}-{batch}:fp', {'eps': Inp((), 'f64', 'any', py=True)}, run, post, raises=raises, timeout=150, x64=dt == 'f64'))
    for dt in (jnp.int32, jnp.uint8, jnp.bool_, jnp.complex64, jnp.int8):
        def run2(a, dt=dt):
            ControllerBuilder.new_builder(2, core_dtype=dt).build()
            return {}
        out.append(Case(f'B02:dtype-{np.dtype(dt).name}:fp', {'u': Inp((), 'f32', 'fin')}, run2, lambda I, O: [],
                        raises=lambda I: const(True, 'b'), jit_replay=False))
    # the real thing: with the default or an extreme epsilon, mass one halts
    for dt in ('f32', 'f16', 'bf16', 'f64'):
        for eps in (1e-4, 1e-8, 1e-300, 0.5, 0.999999, 1 - 1e-12):
            def run3(a, dt=dt, eps=eps):
                c = ControllerBuilder.new_builder(2, core_dtype=ir.np_of(dt), epsilon=eps).define_accumulator_by_shape('x', [2]).build()
                c = c.cache_update('x', a['u']).iterate_act(a['h'])
                return {'halted': c.halted_batches, 'p': c.probabilities}

            def post3(I, O, dt=dt):
                for i in range(2):
                    yield 'an element that is given all its mass halts', Implies(mk('eq', I['h'][i], const(1, dt)), O['halted'][i])
                    yield 'an element that is given no mass does not', Implies(mk('eq', I['h'][i], const(0, dt)), Not(O['halted'][i]))
            out.append(Case(f'B02:halts-{dt}-{eps}:fp', {'u': Inp((2,), 'f32', 'fin'), 'h': Inp((2,), dt, 'unit')}, run3, post3))
    return out


EPSRES = {'f32': 2.0 ** -24, 'f16': 2.0 ** -11, 'bf16': 2.0 ** -8, 'f64': 2.0 ** -53}


# B03 ------------------------------------------------------------------------------------
def b03(tier):
    """A definition is accepted iff every leaf is floating and starts with the batch shape (symbolic dimensions)."""
    out = []
    for batch in ((), (2,), (1,), (2, 3), (1, 2), (2, 2, 2)) if tier == 'quick' else ((), (2,), (1,), (3,), (2, 3), (1, 2), (3, 1), (2, 2, 2), (2, 1, 2)):
        for rank in range(0, 5):
            for where in ('only', 'second', 'nested'):
                def run(a, batch=batch, rank=rank, where=where):
                    leaf = FakeArray([a[f'd{k}'] for k in range(rank)])
                    ok = jnp.zeros(batch)
                    t = {'only': leaf, 'second': [ok, leaf], 'nested': {'a': (ok, {'b': ok}), 'c': (leaf,)}}[where]
                    b = ControllerBuilder.new_builder(list(batch))
                    b2 = b.define_accumulator_directly('x', t)
                    return {'n': len(b2.accumulators)}

                def raises(I, batch=batch, rank=rank):
                    if rank < len(batch):
                        return const(True, 'b')
                    return Not(And([mk('same', I[f'd{k}'].reshape(-1)[0], const(batch[k], 'i64')) for k in range(len(batch))]))
                ins = {f'd{k}': Inp((), 'i64', ('range', 0, 6), py=True) for k in range(rank)}
                out.append(Case(f'B03:{batch}-{rank}-{where}'.replace(' ', '') + ':re', ins, run,
                                lambda I, O: [('it is defined', mk('same', O['n'].reshape(-1)[0], const(1, 'i64')))], raises=raises, mode='re', dyadic=1,
                                smaller={f'd{k}': Inp((), 'i64', ('range', 0, 3 if k < len(batch) else 1), py=True) for k in range(rank)}))
    NARROW = ['float32', 'float16', 'bfloat16', 'int32', 'uint8', 'bool', 'uint16', 'int8', 'complex64']
    for where, x64 in (('only', False), ('first', False), ('last', False), ('only', True), ('last', True)):
        DT = NARROW if not x64 else NARROW[:3] + ['float64'] + NARROW[3:] + ['int64', 'uint32', 'uint64', 'complex128']

        def run2(a, where=where, DT=DT):
            k = pick(a['dt'], len(DT))
            leaf, ok = jnp.zeros([2, 3], DT[k]), jnp.zeros([2])
            t = {'only': leaf, 'first': [leaf, ok], 'last': {'a': ok, 'z': (ok, leaf)}}[where]
            b2 = ControllerBuilder.new_builder(2).define_accumulator_directly('x', t)
            return {'n': len(b2.accumulators)}
        out.append(Case(f'B03:dtype-{where}-{x64}:re', {'dt': Inp((), 'i64', ('range', 0, len(DT) - 1), py=True)}, run2,
                        lambda I, O: [], raises=lambda I, x64=x64: mk('le', const(4 if x64 else 3, 'i64'), I['dt'].reshape(-1)[0]), mode='re', dyadic=1, x64=x64))
    return out


def defaults_case():
    """What is not said has its documented default; defining a name again replaces it."""
    WAYS = [({}, 'f32'), ({'fill': 1}, 'f32'), ({'dtype': jnp.float16}, 'f16'), ({'dtype': jnp.float16, 'fill': 1}, 'f16')]

    def run(a):
        facts, out = {}, {}
        for core in (None, jnp.float16):
            b = ControllerBuilder.new_builder(2) if core is None else ControllerBuilder.new_builder(2, core)
            for k, (kw, dt) in enumerate(WAYS):
                kw = {w: (a['fill'] if w == 'fill' else v) for w, v in kw.items()}
                for again in (False, True):
                    b2 = b.define_accumulator_by_shape('x', [2, 1], jnp.bfloat16, 3.0) if again else b
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        x = b2.define_accumulator_by_shape('x', {'q': [2, 3]}, **kw).build().save()
                    for w, d in (('acc', x.accumulators), ('def', x.defaults)):
                        g = d['x']['q'] if isinstance(d['x'], dict) else None
                        nm = f'{k} {"again" if again else "first"} {"f16" if core else "f32"} {w}'
                        facts[f'{nm}: shape and dtype'] = g is not None and g.shape == (2, 3) and g.dtype == np.dtype(ir.np_of(dt)) and list(d) == ['x']
                        if facts[f'{nm}: shape and dtype']:
                            out[nm] = g
        out['!facts'] = facts
        return out

    def post(I, O):
        for k in O:
            for x in O[k].reshape(-1):
                yield 'the fill is what was given, or zero', mk('eq', x, conv(I['fill'].reshape(-1)[0], x.dt) if 'fill' in WAYS[int(k[0])][0] else const(0, x.dt))
    return Case('B04:defaults:fp', {'fill': Inp((), 'f32', ('range', -8, 8), weak=True)}, run, post)


# B04 ------------------------------------------------------------------------------------
SHAPE_TREES = [lambda s, t: s, lambda s, t: [s], lambda s, t: (s, t), lambda s, t: {'b': s, 'a': t}, lambda s, t: [s, [t, s]],
               lambda s, t: {'m': (s, {'k': t}), 'a': [s]}]


def b04(tier):
    out = []
    for batch in ((), (2,), (2, 3)):
        for ti, mkt in enumerate(SHAPE_TREES):
            for dt in ('f32', 'f16', 'bf16', 'f64'):
                if tier == 'quick' and (len(batch) + ti) % 2 and dt != 'f32':
                    continue
                s, t = list(batch) + [3], list(batch)

                def run(a, batch=batch, s=s, t=t, mkt=mkt, dt=dt):
                    b = ControllerBuilder.new_builder(list(batch)).define_accumulator_by_shape('x', mkt(s, t), ir.np_of(dt), a['fill'])
                    st = b.build().save()
                    want = jax.tree_util.tree_map(lambda z: z, mkt(jnp.zeros(s), jnp.zeros(t)))
                    facts, out = {}, {}
                    for w, d in (('acc', st.accumulators), ('def', st.defaults)):
                        facts[f'{w}: structure'] = jax.tree_util.tree_structure(d['x']) == jax.tree_util.tree_structure(want)
                        for k, (g, e) in enumerate(zip(jax.tree_util.tree_leaves(d['x']), jax.tree_util.tree_leaves(want))):
                            facts[f'{w} {k}: shape'] = tuple(g.shape) == tuple(e.shape)
                            facts[f'{w} {k}: dtype'] = g.dtype == np.dtype(ir.np_of(dt))
                            out[f'{w}{k}'] = g
                    facts['no update is pending'] = st.updates == {'x': None}
                    return {**out, '!facts': facts}

                def post(I, O, dt=dt):
                    f = conv(I['fill'].reshape(-1)[0], dt)
                    for k in O:
                        for x in O[k].reshape(-1):
                            yield 'every entry is the fill value', mk('eq', x, f)
                out.append(Case(f'B04:{batch}-{ti}-{dt}'.replace(' ', '') + ':fp', {'fill': Inp((), 'f64' if dt == 'f64' else 'f32', ('range', -8, 8), weak=True)}, run, post, x64=dt == 'f64'))
                if dt == 'f32' and (tier != 'quick' or ti < 2):
                    out.append(Case(f'B04:{batch}-{ti}-wild'.replace(' ', '') + ':fp', {'fill': Inp((), 'f32', 'any', weak=True)}, run,
                                    lambda I, O: [('every entry is the fill value, whatever it is', same(x, I['fill'].reshape(-1)[0])) for k in O for x in O[k].reshape(-1)]))
    out.append(defaults_case())
    BAD = [(2, 3), (2, 2), 2, 'xy', [2, 3.0], {'a': (2, 3)}, {'a': [2], 'b': 2}, [[2], 2], {'a': [3]}, [3], [2, 'x'], {'a': [2], 'b': [1]}, [[2], [4]], (),
           ]
    OK = [[2], [2, 5], {'a': [2]}, [[2], [2, 1]], ([2], {'q': [2, 2]})]
    trees = OK + BAD[:-1]

    def run2(a):
        k = pick(a['k'], len(trees))
        b = ControllerBuilder.new_builder(2).define_accumulator_by_shape('x', trees[k])
        return {'n': len(b.accumulators)}
    out.append(Case('B04:refuse:re', {'k': Inp((), 'i64', ('range', 0, len(trees) - 1), py=True)}, run2, lambda I, O: [],
                    raises=lambda I: mk('le', const(len(OK), 'i64'), I['k'].reshape(-1)[0]), mode='re', dyadic=1))
    return out


# E01 / E02 / E03 --------------------------------------------------------------------------
def editor(c, mode='standard', save=False):
    return TensorEditor.edit_save(c.save(), mode) if save else TensorEditor.edit_controller(c, mode)


def setters(cfg):
    for f, dom in (('p', 'unit'), ('r', 'unit'), ('it', 'nat')):
        yield f, None, dom
    yield 'eps', None, 'unit'
    for n in cfg.accs:
        for f in ('acc', 'def', 'upd'):
            yield f, n, 'any'


CALL = {'p': 'set_probabilities', 'r': 'set_residuals', 'it': 'set_iterations', 'eps': 'set_epsilon', 'acc': 'set_accumulator',
        'def': 'set_defaults', 'upd': 'set_updates'}


def new_inputs(cfg, f, n, dom):
    if f == 'eps':
        return {'2eps': Inp((), 'f32', dom, weak=True)}
    if n is None:
        return {'2' + f: Inp(cfg.batch, cfg.core, dom)}
    return {'2' + key(f, m, k): Inp(cfg.shape(l), l.dt, dom) for m, k, l in cfg.leaf_list() if m == n}


def call(e, cfg, a, f, n):
    b = {k[1:]: v for k, v in a.items() if k.startswith('2')}
    m = getattr(e, CALL[f])
    return m(b[f]) if n is None else m(n, tree(cfg, b, f, n))


def uneven_case():
    """A save whose collections do not have the same names: an edit adds or removes none."""
    cfg = Cfg('uneven', (2,), {'b': L(2), 'a': L(2), 'c': L(2)})

    def run(a):
        facts, out = {}, {}
        s = controller(cfg, a, updates=list(cfg.accs)).save()
        for gone in ('accumulators', 'defaults', 'updates'):
            t = s.replace(**{gone: {n: v for n, v in getattr(s, gone).items() if n != 'c'}})
            for f, go in (('p', lambda e: e.set_probabilities(a['2p'])), ('acc', lambda e: e.set_accumulator('a', a['2x'])), ('def', lambda e: e.set_defaults('a', a['2x'])),
                          ('upd', lambda e: e.set_updates('a', a['2x'])), ('upd', lambda e: e.set_updates('a', None))):
                u = go(TensorEditor.edit_save(t, 'silence')).build().save()
                for w in ('accumulators', 'defaults', 'updates'):
                    x, y = getattr(t, w), getattr(u, w)
                    facts[f'{f} edited without {gone} c: {w} has the same names'] = list(x) == list(y)
                    for n in x:
                        if n in y and not (n == 'a' and w[:3] == f):
                            facts[f'{f} edited without {gone} c: {w} {n} is the same'] = y[n] is x[n]
        return {'p': s.probabilities, '!facts': facts}
    ins = {**state_inputs(cfg, update='any'), '2p': Inp((2,), 'f32', 'unit'), '2x': Inp((2, 2), 'f32', 'fin')}
    return Case('E01:uneven:fp', ins, run, lambda I, O: [], jit_replay=False)


def e01(tier):
    out = []
    for ci, cfg in enumerate(cfgs(tier)):
        for si, (f, n, dom) in enumerate(setters(cfg)):
            if tier == 'quick' and si > 3 and (ci + si) % 2 and len(cfg.accs) > 1:
                continue
            sets = pend_sets(cfg)
            pending = sets[(ci + si) % len(sets)]
            for mode in ('standard', 'silence'):
                def run(a, cfg=cfg, f=f, n=n, pending=pending, mode=mode, save=bool((ci + si) % 2)):
                    facts = {}
                    c = controller(cfg, a, updates=pending)
                    e = call(editor(c, mode, save), cfg, a, f, n)
                    facts['the editor keeps its error mode'] = e.error_mode == mode
                    c2 = e.build()
                    facts['the result is an immutable controller'] = type(c2) is ACT_Controller and refused(c2) and refused(e)
                    out = full_out(cfg, c2.save(), facts, set(pending) | ({n} if f == 'upd' else set()))
                    out['!facts'] = facts
                    return out

                def post(I, O, cfg=cfg, f=f, n=n, pending=pending):
                    J = dict(I)
                    for k in I:
                        if k.startswith('2'):
                            J[k[1:]] = I[k]
                    yield from identity_post(f'after {CALL[f]}', cfg, set(pending) | ({n} if f == 'upd' else set()))(J, O)
                    if f == 'eps' and cfg.eps is not None:
                        pass
                cfg2 = cfg if f != 'eps' else Cfg(cfg.name, cfg.batch, cfg.accs, cfg.core, None, cfg.dep)
                ins = {**state_inputs(cfg2, acc='any', default='any', update='any', p='any', r='any', it='any'), **new_inputs(cfg2, f, n, dom)}

                def run_(a, cfg2=cfg2, f=f, n=n, pending=pending, mode=mode, save=bool((ci + si) % 2), run=run):
                    return run(a, cfg=cfg2)

                def post_(I, O, cfg2=cfg2, post=post):
                    return post(I, O, cfg=cfg2)
                out.append(Case(f'E01:{CALL[f]}-{n}-{cfg.name}-{mode}:fp', ins, run_, post_, jit_replay=mode == 'silence'))
    out.append(uneven_case())
    edits = {'probabilities': lambda e: e.set_probabilities(e.probabilities * 0.5), 'residuals': lambda e: e.set_residuals(e.residuals * 0.5),
             'iterations': lambda e: e.set_iterations(e.iterations + 1), 'epsilon': lambda e: e.set_epsilon(0.5), 'accumulator': lambda e: e.set_accumulator('x', e.accumulators['x'] + 1),
             'defaults': lambda e: e.set_defaults('y', [jnp.ones(2)]), 'updates': lambda e: e.set_updates('x', e.accumulators['x'])}
    out.append(mode_case('E01', {f'{n} {how}': lambda s, f=f, how=how: f(TensorEditor.edit_save(s, how)).build().save() for n, f in edits.items() for how in ('standard', 'silence')}))
    for cfg in cfgs(tier):
        if cfg.name in ('v2', 'names', 'nested'):
            for n in cfg.accs:
                def run2(a, cfg=cfg, n=n):
                    facts = {}
                    c = controller(cfg, a, updates=list(cfg.accs))
                    e = editor(c).set_updates(n, None)
                    pend = [m for m in cfg.accs if m != n]
                    out = full_out(cfg, e.build().save(), facts, pend)
                    out['!facts'] = facts
                    return out
                out.append(Case(f'E01:clear-{n}-{cfg.name}:fp', state_inputs(cfg, acc='any', default='any', update='any', p='any', r='any', it='any'),
                                run2, identity_post('clearing an update', cfg, [m for m in cfg.accs if m != n]), jit_replay=False))
    return out


def e02(tier):
    """The editor refuses exactly the ill-formed values."""
    out = []
    for cfg in cfgs(tier):
        for f, n, dom in setters(cfg):
            if n is not None:
                continue
            for mode in ('standard', 'silence'):
                def run(a, cfg=cfg, f=f, n=n, mode=mode):
                    c = controller(cfg, a)
                    e = call(editor(c, mode), cfg, a, f, n)
                    return {'!facts': {'accepted': True}}

                def raises(I, f=f, mode=mode):
                    if mode == 'silence':
                        return const(False, 'b')
                    bad = []
                    for x in I['2' + f].reshape(-1):
                        z, o = const(0, x.dt), const(1, x.dt)
                        bad.append(Not(z <= x) if f == 'it' else Not(And(z <= x, x <= o)))
                    return Or(bad)
                ins = {**state_inputs(cfg), **new_inputs(cfg, f, n, 'any')}
                out.append(Case(f'E02:{CALL[f]}-{cfg.name}-{mode}:fp', ins, run, lambda I, O: [], raises=raises, jit_replay=False, maxpaths=300))
    out += e02_static(tier)
    out += e02_chains(tier)
    return out


def e02_chains(tier):
    """After any well-formed edit the editor still refuses, or with errors silenced still takes, what it did before."""
    cfg = Cfg('chain', (2,), {'x': L()}, eps=1e-4, dep=1.0)
    out = []
    for f, n, dom in [('p', None, 'unit'), ('r', None, 'unit'), ('it', None, 'nat'), ('eps', None, 'unit'), ('acc', 'x', 'fin'), ('def', 'x', 'fin'), ('upd', 'x', 'fin')]:
        for mode in ('standard', 'silence'):
            for save in (False, True):
                def run(a, f=f, n=n, mode=mode, save=save):
                    e = call(editor(controller(cfg, a), mode, save), cfg, a, f, n)
                    k = pick(a['then'], 4)
                    b = {q[1:]: v for q, v in a.items() if q.startswith('3')}
                    (e.set_probabilities, e.set_residuals, e.set_iterations, lambda v: e.set_accumulator('x', v))[k](b['v'] if k < 3 else b['v'][:1])
                    return {'!facts': {'accepted': True}}

                def raises(I, mode=mode):
                    k = I['then'].reshape(-1)[0]
                    is_ = lambda v: mk('same', k, const(v, 'i64'))
                    vs = list(I['3v'].reshape(-1))
                    z, o = const(0, 'f32'), const(1, 'f32')
                    low, high = Or([Not(z <= v) for v in vs]), Or([Not(v <= o) for v in vs])
                    if mode == 'silence':
                        return const(False, 'b')
                    return Or(is_(3), And(Or(is_(0), is_(1)), Or(low, high)), And(is_(2), low))
                ins = {**state_inputs(cfg, update='fin'), **new_inputs(Cfg(cfg.name, cfg.batch, cfg.accs, eps=None), f, n, dom),
                       '3v': Inp((2,), 'f32', 'any'), 'then': Inp((), 'i64', ('range', 0, 3), py=True)}
                out.append(Case(f'E02:chain-{CALL[f]}-{mode}-{save}:fp', ins, run, lambda I, O: [], raises=raises, jit_replay=False, maxpaths=300))
    return out


# E03 ------------------------------------------------------------------------------------
def e03(tier):
    """A checking editor inside a jitted function wrapped by jit_and_checkify behaves as it does eagerly."""
    from src.jax_act.core.utils import jit_and_checkify
    out = []
    sel = ['v2', 'scalar', 'names', 'nested', 'b22', 'f16', 'core32_acc16', 'core32_acc64', 'f64']
    for ci, cfg in enumerate(cfgs(tier)):
        if tier == 'quick' and cfg.name not in sel:
            continue
        for si, (f, n, dom) in enumerate(setters(cfg)):
            for wrap in ('checkify', 'jit'):
                if wrap == 'jit' and tier == 'quick' and (ci + si) % 2:
                    continue
                sets = pend_sets(cfg)
                pending = sets[(ci + si) % len(sets)]
                cfg2 = cfg if f != 'eps' else Cfg(cfg.name, cfg.batch, cfg.accs, cfg.core, None, cfg.dep)
                mode = 'standard' if wrap == 'checkify' else 'silence'

                def run(a, cfg=cfg2, f=f, n=n, pending=pending, mode=mode, wrap=wrap):
                    facts = {}
                    c = controller(cfg, a, updates=pending)
                    b = {k: v for k, v in a.items() if k.startswith('2')}
                    g = lambda c, b: call(editor(c, mode), cfg, b, f, n).build()
                    c2 = (jit_and_checkify(g) if wrap == 'checkify' else jax.jit(g))(c, b)
                    facts['the result is a controller'] = type(c2) is ACT_Controller and refused(c2)
                    out = full_out(cfg, c2.save(), facts, set(pending) | ({n} if f == 'upd' else set()))
                    out['!facts'] = facts
                    return out

                def post(I, O, cfg=cfg2, f=f, n=n, pending=pending):
                    J = dict(I)
                    for k in I:
                        if k.startswith('2'):
                            J[k[1:]] = I[k]
                    yield from identity_post(f'after a traced {CALL[f]}', cfg, set(pending) | ({n} if f == 'upd' else set()))(J, O)

                def raises(I, f=f, n=n, wrap=wrap):
                    if wrap == 'jit' or n is not None:
                        return const(False, 'b')
                    z = lambda x: const(0, x.dt)
                    return Or([Not(z(x) <= x) if f == 'it' else Not(And(z(x) <= x, x <= const(1, x.dt))) for x in I['2' + f].reshape(-1)])
                ins = {**state_inputs(cfg2, acc='any', default='any', update='any', p='any', r='any', it='any'), **new_inputs(cfg2, f, n, 'any')}
                out.append(Case(f'E03:{wrap}-{CALL[f]}-{n}-{cfg.name}:fp', ins, run, post, raises=raises, jit_replay=False, traces=True, maxpaths=300))
    cfg = Cfg('st', (2,), {'x': L(3), 't': [L(2), L()]}, eps=1e-4, dep=1.0)
    # ill-formed shapes, dtypes, trees and names are known while tracing, and are refused there too
    for f, bad in (('p', lambda a: ('w',)), ('r', lambda a: ('w',)), ('it', lambda a: ('w',))):
        for what, g in (('wide', lambda v: v[:, None]), ('short', lambda v: v[:1]), ('dtype', lambda v: v.astype(jnp.float16))):
            def run(a, f=f, g=g):
                jit_and_checkify(lambda c, v: getattr(editor(c), CALL[f])(g(v)).build())(controller(cfg, a), a['v'])
                return {'!facts': {'accepted': True}}
            out.append(Case(f'E03:static-{CALL[f]}-{what}:fp', {**state_inputs(cfg), 'v': Inp((2,), 'f32', 'unit')}, run, lambda I, O: [],
                            raises=lambda I: const(True, 'b'), jit_replay=False, traces=True))
    for f in ('acc', 'def', 'upd'):
        for what, n, g in (('name', 'nope', lambda v: v), ('shape', 'x', lambda v: v[:, :1]), ('dtype', 'x', lambda v: v.astype(jnp.float16)),
                           ('tree', 'x', lambda v: [v]), ('leaf', 't', lambda v: [v, v[:, 0]]), ('leaves', 't', lambda v: [v[:, :2]])):
            def run(a, f=f, n=n, g=g):
                jit_and_checkify(lambda c, v: getattr(editor(c), CALL[f])(n, g(v)).build())(controller(cfg, a), a['v'])
                return {'!facts': {'accepted': True}}
            out.append(Case(f'E03:static-{CALL[f]}-{what}:fp', {**state_inputs(cfg), 'v': Inp((2, 3), 'f32', 'any')}, run, lambda I, O: [],
                            raises=lambda I: const(True, 'b'), jit_replay=False, traces=True))
    return out


def e02_static(tier):
    out = []
    cfg = Cfg('st', (2,), {'x': L(3), 't': {'m': L(2), 'k': [L(), L(2, 2)]}}, eps=1e-4, dep=1.0)
    # tensors of the wrong shape or dtype, chosen symbolically
    BAD = {'right': lambda v: v, 'longer': lambda v: jnp.concatenate([v, v]), 'first': lambda v: v[:1], 'scalar': lambda v: v[0],
           'wide': lambda v: v[:, None], 'row': lambda v: v[None], 'f16': lambda v: v.astype(jnp.float16), 'bf16': lambda v: v.astype(jnp.bfloat16),
           'int': lambda v: v.astype(jnp.int32), 'numpy f64': lambda v: np.array([0., 1.]), 'numpy f16': lambda v: np.array([0., 1.], np.float16),
           'numpy int': lambda v: np.array([0, 1]), 'numpy row': lambda v: np.array([[0., 1.]], np.float32), 'numpy': lambda v: np.array([0., 1.], np.float32)}
    names = list(BAD)
    for f in ('p', 'r', 'it'):
        def run(a, f=f):
            k = pick(a['k'], len(names))
            v = BAD[names[k]](a['v'])
            getattr(editor(controller(cfg, a)), CALL[f])(v)
            return {'!facts': {'accepted': True}}
        ins = {**state_inputs(cfg), 'v': Inp((2,), 'f32', 'unit' if f != 'it' else 'nat'), 'k': Inp((), 'i64', ('range', 0, len(names) - 1), py=True)}
        out.append(Case(f'E02:static-{f}:fp', ins, run, lambda I, O: [], raises=lambda I: Not(Or([mk('same', I['k'].reshape(-1)[0], const(g, 'i64')) for g in (0, len(names) - 1)]))))
    LEAF = {'right': lambda v: v, 'narrow': lambda v: v[:, :1], 'flat': lambda v: v[:, 0], 'short': lambda v: v[:1], 'deep': lambda v: v[..., None],
            'f16': lambda v: v.astype(jnp.float16), 'turned': lambda v: v.T, 'twice': lambda v: [v, v], 'dict': lambda v: {'a': v}, 'none': lambda v: None,
            'empty': lambda v: [], 'tuple': lambda v: (v,), 'numpy': lambda v: np.ones((2, 3), np.float32), 'numpy f64': lambda v: np.ones((2, 3)),
            'numpy int': lambda v: np.ones((2, 3), int), 'numpy row': lambda v: np.ones((1, 3), np.float32)}
    ln = list(LEAF)
    TREE = {'right': lambda t: t, 'last narrow': lambda t: {'m': t['m'], 'k': [t['k'][0], t['k'][1][:, :1]]},
            'first f16': lambda t: {'m': t['m'].astype(jnp.float16), 'k': t['k']}, 'missing key': lambda t: {'m': t['m']},
            'extra key': lambda t: {**t, 'z': t['m']}, 'renamed': lambda t: {'q': t['m'], 'k': t['k']}, 'tuple': lambda t: {'m': t['m'], 'k': tuple(t['k'])},
            'extra leaf': lambda t: {'m': t['m'], 'k': t['k'] + [t['m']]}, 'fewer': lambda t: {'m': t['m'], 'k': t['k'][:1]},
            'swapped': lambda t: {'m': t['m'], 'k': t['k'][::-1]}, 'bare': lambda t: t['m'], 'none leaf': lambda t: {'m': None, 'k': t['k']},
            'last none': lambda t: {'m': t['m'], 'k': [t['k'][0], None]}, 'nested more': lambda t: {'m': [t['m']], 'k': t['k']},
            'middle bf16': lambda t: {'m': t['m'], 'k': [t['k'][0].astype(jnp.bfloat16), t['k'][1]]}}
    tn = list(TREE)
    for f in ('acc', 'def', 'upd'):
        def run2(a, f=f):
            k = pick(a['k'], len(ln))
            if f == 'upd' and ln[k] == 'none':
                return {'!facts': {'accepted': True}}
            getattr(editor(controller(cfg, a)), CALL[f])('x', LEAF[ln[k]](a['upd.x.0']))
            return {'!facts': {'accepted': True}}

        def r2(I, f=f):
            k = I['k'].reshape(-1)[0]
            ok = Or([mk('same', k, const(g, 'i64')) for g in (0, ln.index('numpy'))])
            return Not(Or(ok, mk('same', k, const(ln.index('none'), 'i64'))) if f == 'upd' else ok)
        ins = {**state_inputs(cfg, update='any'), 'k': Inp((), 'i64', ('range', 0, len(ln) - 1), py=True)}
        out.append(Case(f'E02:static-{f}-leaf:fp', ins, run2, lambda I, O: [], raises=r2))

        def run3(a, f=f):
            k = pick(a['k'], len(tn))
            getattr(editor(controller(cfg, a)), CALL[f])('t', TREE[tn[k]](tree(cfg, a, 'upd', 't')))
            return {'!facts': {'accepted': True}}
        ins = {**state_inputs(cfg, update='any'), 'k': Inp((), 'i64', ('range', 0, len(tn) - 1), py=True)}
        out.append(Case(f'E02:static-{f}-tree:fp', ins, run3, lambda I, O: [], raises=lambda I: Not(mk('same', I['k'].reshape(-1)[0], const(0, 'i64')))))

        def run4(a, f=f):
            getattr(editor(controller(cfg, a)), CALL[f])('nope', a['upd.x.0'])
            return {'!facts': {'accepted': True}}
        out.append(Case(f'E02:static-{f}-unknown:fp', state_inputs(cfg, update='any'), run4, lambda I, O: [], raises=lambda I: const(True, 'b'), jit_replay=False))
    for m in ('loud', '', 'Standard', None):
        for save in (True, False):
            out.append(Case(f'E02:mode-{m}-{save}:fp', state_inputs(cfg), lambda a, m=m, save=save: {'!facts': {'m': bool(editor(controller(cfg, a), m, save))}},
                            lambda I, O: [], raises=lambda I: const(True, 'b'), jit_replay=False))
    return out
