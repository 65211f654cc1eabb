"""C10: the caching protocol.  C11: values are immutable.  S01/S02: trees, jit, save and load."""
import copy
import dataclasses
from ..common import *
from .. import ir
from ..ir import And, Or, Not, Implies, If, same, Iff, conv, mk, const
from src.jax_act.core.viewer import ACTViewer
from src.jax_act.core.tensoreditor import TensorEditor


OPS = ('cache x', 'cache y', 'cache an unknown name', 'iterate', 'reset', 'nothing')


def pick(op, n):
    """Fork the execution on a symbolic operation code."""
    for k in range(n - 1):
        if bool(op == k):
            return k
    return n - 1


def proto_case(cfg, K, order):
    names = list(cfg.accs)
    assert len(names) == 2
    x, y = names

    def run(a):
        c = controller(cfg, a, updates=[n for n, f in ((x, a['px']), (y, a['py'])) if bool(f)])
        out = {}
        for k in range(K):
            op = pick(a[f'op{k}'], len(OPS))
            before = c
            refused = False
            try:
                if op == 0:
                    c = c.cache_update(x, tree(cfg, a, 'upd', x))
                elif op == 1:
                    c = c.cache_update(y, tree(cfg, a, 'upd', y))
                elif op == 2:
                    c = c.cache_update('nope', tree(cfg, a, 'upd', y))
                elif op == 3:
                    c = c.iterate_act(a['h'])
                elif op == 4:
                    c = c.reset_batches()
            except (ValueError, RuntimeError) as e:
                refused = True
                c = before
            u = c.save().updates
            for nm, v in (('refused', refused), ('x', u.get(x) is not None), ('y', u.get(y) is not None),
                          ('ready', bool(c.updates_ready_to_commit)), ('has', bool(c.has_cached_updates)),
                          ('names', set(u) == {x, y})):
                out[f'{nm}{k}'] = jnp.asarray(bool(v))
        return out

    def post(I, O):
        px, py = I['px'].reshape(-1)[0], I['py'].reshape(-1)[0]
        g = lambda n: O[n].reshape(-1)[0]
        for k in range(K):
            op = I[f'op{k}'].reshape(-1)[0]
            is_ = lambda v: mk('same', op, const(v, 'i32'))
            bad = Or(And(is_(0), px), And(is_(1), py), is_(2), And(is_(3), Not(And(px, py))), And(is_(4), Or(px, py)))
            yield f'operation {k} is refused exactly when the protocol forbids it', Iff(g(f'refused{k}'), bad)
            it = And(is_(3), Not(bad))
            px, py = And(Or(px, And(is_(0), Not(bad))), Not(it)), And(Or(py, And(is_(1), Not(bad))), Not(it))
            yield f'after operation {k}: what is pending', And(Iff(g(f'x{k}'), px), Iff(g(f'y{k}'), py))
            yield f'after operation {k}: ready to commit means all are pending', Iff(g(f'ready{k}'), And(px, py))
            yield f'after operation {k}: has updates means any is pending', Iff(g(f'has{k}'), Or(px, py))
            yield f'after operation {k}: the accumulators are the same', g(f'names{k}')
    ins = state_inputs(cfg, update='fin')
    ins['h'] = Inp(cfg.batch, cfg.core, 'unit')
    ins['px'] = Inp((), 'b', 'any')
    ins['py'] = Inp((), 'b', 'any')
    for k in range(K):
        ins[f'op{k}'] = Inp((), 'i32', ('range', 0, len(OPS) - 1))
    return Case(f'C10:protocol{K}-{cfg.name}:fp', ins, run, post, jit_replay=False, maxpaths=8000)


def bad_h_case(batch, shape):
    cfg = Cfg(f'h{batch}-{shape}'.replace(' ', ''), batch, {'x': L(2)})

    def run(a):
        c = controller(cfg, a).cache_update('x', tree(cfg, a, 'upd', 'x'))
        return {'p': c.iterate_act(a['h']).probabilities}
    ins = state_inputs(cfg, update='fin')
    ins['h'] = Inp(shape, 'f32', 'unit')
    return Case(f'C10:{cfg.name}:fp', ins, run, lambda I, O: [], raises=lambda I: const(True, 'b'), jit_replay=False)


def bad_update_case(cfg, what, make):
    def run(a):
        c = controller(cfg, a)
        for n in cfg.accs:
            c = c.cache_update(n, make(a, n, tree(cfg, a, 'upd', n)))
        return {'p': c.iterate_act(a['h']).probabilities}
    ins = state_inputs(cfg, update='fin')
    ins['h'] = Inp(cfg.batch, cfg.core, 'unit')
    return Case(f'C10:update-{cfg.name}-{what}:fp', ins, run, lambda I, O: [], raises=lambda I: const(True, 'b'), jit_replay=False)


def nothing_case():
    """A controller without accumulators: every one of its updates is cached, and none is."""
    cfg = Cfg('nothing', (2,), {})

    def run(a):
        facts = {}
        c = controller(cfg, a)
        for k in range(3):
            facts[f'{k}: all updates are cached'] = bool(c.updates_ready_to_commit)
            facts[f'{k}: none is'] = not bool(c.has_cached_updates)
            try:
                c.cache_update('x', a['h'])
                facts[f'{k}: an unknown name is refused'] = False
            except ValueError:
                pass
            c = c.reset_batches() if k == 1 else c.iterate_act(a['h'])
        return {'p': c.probabilities, '!facts': facts}
    return Case('C10:nothing:fp', {**state_inputs(cfg), 'h': Inp(cfg.batch, cfg.core, 'unit')}, run, lambda I, O: [])


def c10(tier):
    out = [proto_case(Cfg('xy', (2,), {'x': L(), 'y': L(2)}, eps=1e-4, dep=1.0), 2, 0),
           proto_case(Cfg('tree', (), {'b': (L(), {'k': L(2)}), 'a': L()}, eps=1e-4, dep=1.0), 2, 0)]
    if tier != 'quick':
        out.append(proto_case(Cfg('xy3', (1,), {'y': L(), 'x': [L(), L(2)]}, eps=1e-4, dep=1.0), 3, 0))
    for batch, shapes in (((2,), [(), (1,), (3,), (2, 1), (1, 2), (2, 2)]), ((), [(1,), (2,), (1, 1)]),
                          ((2, 3), [(3, 2), (2,), (3,), (2, 1), (1, 3), (6,), (2, 3, 1), ()])):
        out += [bad_h_case(batch, s) for s in shapes]
    one = Cfg('one', (2,), {'w': L(3)}, eps=1e-4, dep=1.0)
    for what, f in (('narrow', lambda t: t[:, :1]), ('flat', lambda t: t[:, 0]), ('row', lambda t: t[0]),
                    ('row1', lambda t: t[:1]), ('deep', lambda t: t[..., None]), ('wide', lambda t: jnp.concatenate([t, t], -1)),
                    ('scalar', lambda t: t[0, 0]), ('turned', lambda t: t.T), ('padded', lambda t: t[None])):
        out.append(bad_update_case(one, what, lambda a, n, t, f=f: f(t)))
    two = Cfg('two', (2,), {'q': L(3), 's': {'m': L(2), 'k': [L(), L(2, 2)]}}, eps=1e-4, dep=1.0)
    for what, f in (('leaf-missing', lambda t: {'m': t['m'], 'k': t['k'][:1]}), ('leaf-extra', lambda t: {**t, 'z': t['m']}),
                    ('last-leaf-narrow', lambda t: {'m': t['m'], 'k': [t['k'][0], t['k'][1][:, :1]]}),
                    ('first-leaf-flat', lambda t: {'m': t['m'][:, 0], 'k': t['k']}),
                    ('swapped', lambda t: {'m': t['k'][1], 'k': [t['k'][0], t['m']]})):
        out.append(bad_update_case(two, what, lambda a, n, t, f=f: f(t) if n == 's' else t))
    from .c_step import alias_case
    out += [alias_case('C10', k) for k in range(4)]
    out.append(nothing_case())
    return out


# C11 ------------------------------------------------------------------------------------
def ident(facts, label, before, s):
    facts[f'{label}: the same accumulators, defaults and updates as before'] = (
        list(s.accumulators) == before[0] and list(s.defaults) == before[1] and list(s.updates) == before[2]
        and [v is not None for v in s.updates.values()] == before[3])


def mark(s):
    return (list(s.accumulators), list(s.defaults), list(s.updates), [v is not None for v in s.updates.values()])


def refuses_assignment(facts, label, obj, attrs):
    ok = True
    for at in (*attrs, '_hidden', 'accumulators', 'error_mode', 'epsilon'):
        try:
            setattr(obj, at, None)
            ok = False
        except AttributeError:
            pass
        try:
            delattr(obj, at)
            ok = False
        except AttributeError:
            pass
    facts[f'{label}: assigning and deleting attributes is refused'] = ok


ACTIONS = {
    'cache': lambda cfg, a, c: c.cache_update(list(cfg.accs)[0], tree(cfg, a, 'upd', list(cfg.accs)[0])),
    'iterate': lambda cfg, a, c: all_cached(cfg, a, c).iterate_act(a['h']),
    'reset': lambda cfg, a, c: c.reset_batches(),
    'mask': lambda cfg, a, c: c.make_viewer().mask_data(a['m']),
    'unhalted': lambda cfg, a, c: c.make_viewer().unhalted_only(),
    'transform': lambda cfg, a, c: c.make_viewer().transform(lambda t: t * 2),
    'edit_p': lambda cfg, a, c: TensorEditor.edit_controller(c, 'silence').set_probabilities(a['h']),
    'edit_acc': lambda cfg, a, c: TensorEditor.edit_controller(c, 'silence').set_accumulator(list(cfg.accs)[-1], tree(cfg, a, 'upd', list(cfg.accs)[-1])),
    'edit_def': lambda cfg, a, c: TensorEditor.edit_controller(c, 'silence').set_defaults(list(cfg.accs)[-1], tree(cfg, a, 'upd', list(cfg.accs)[-1])),
    'edit_upd': lambda cfg, a, c: TensorEditor.edit_save(c.save(), 'silence').set_updates(list(cfg.accs)[-1], tree(cfg, a, 'upd', list(cfg.accs)[-1])),
    'define': lambda cfg, a, c: ControllerBuilder(c.save()).define_accumulator_directly('new', a['h']),
    'redefine': lambda cfg, a, c: ControllerBuilder(c.save()).define_accumulator_directly(list(cfg.accs)[0], a['h']),
    'delete': lambda cfg, a, c: delete_definition(ControllerBuilder(c.save()), list(cfg.accs)[0]),
    'replace': lambda cfg, a, c: c.save().replace(probabilities=a['h'], updates={}, accumulators={}, defaults={}),
    'tree_map': lambda cfg, a, c: jax.tree_util.tree_map(lambda t: t + 1, c),
}


def all_cached(cfg, a, c):
    for n in cfg.accs:
        if c.save().updates[n] is None:
            c = c.cache_update(n, tree(cfg, a, 'upd', n))
    return c


def purity_case(cfg, act, pending):
    def run(a):
        facts = {}
        c = controller(cfg, a, updates=pending(cfg))
        s0 = c.save()
        before = mark(s0)
        new = ACTIONS[act](cfg, a, c)
        s = c.save()
        ident(facts, f'{act} leaves the original alone', before, s)
        facts[f'{act} returns a new object'] = new is not c
        refuses_assignment(facts, 'the original', c, ['state', 'probabilities', 'anything'])
        if act != 'replace':
            refuses_assignment(facts, f'the result of {act}', new, ['state', 'probabilities', 'anything'])
        out = outputs(cfg, s, facts)
        for n in pending(cfg):
            for k, x in enumerate(jax.tree_util.tree_leaves(s.updates[n])):
                out[key('upd', n, k)] = x
        out['eps'], out['dep'] = jnp.asarray(s.epsilon, jnp.float32), jnp.asarray(s.depression_constant, jnp.float32)
        out['!facts'] = facts
        return out

    def post(I, O):
        for k in O:
            if k in I:
                for i in np.ndindex(*O[k].shape):
                    yield f'{act} does not change the original ({k})', same(O[k][i], I[k][i])
    ins = state_inputs(cfg, acc='any', default='any', update='any', p='any', r='any', it='any')
    ins['h'] = Inp(cfg.batch, cfg.core, 'any')
    ins['m'] = Inp(cfg.batch, 'b', 'any')
    return Case(f'C11:{act}-{cfg.name}-{len(pending(cfg))}:fp', ins, run, post)


REFUSED = {
    'an update that does not fit': lambda cfg, a, c: fit(cfg, a, c, lambda t: t[..., None]).iterate_act(a['h']),
    'another tree': lambda cfg, a, c: fit(cfg, a, c, lambda t: [t, t]).iterate_act(a['h']),
    'a missing update': lambda cfg, a, c: fit(cfg, a, c, None).iterate_act(a['h']),
    'halting of another shape': lambda cfg, a, c: all_cached(cfg, a, c).iterate_act(a['h'][None]),
    'an unknown name': lambda cfg, a, c: c.cache_update('nope', a['h']),
    'an update twice': lambda cfg, a, c: all_cached(cfg, a, c).cache_update(list(cfg.accs)[0], a['h']),
    'a reset with updates': lambda cfg, a, c: all_cached(cfg, a, c).reset_batches(),
    'a mask that does not fit': lambda cfg, a, c: c.make_viewer().mask_data(a['m'][None]),
    'a mask of numbers': lambda cfg, a, c: c.make_viewer().mask_data(a['h']),
    'a function that fails': lambda cfg, a, c: c.make_viewer().transform(lambda t: t.reshape(a['h'].shape) * fail(t.ndim)),
    'a function that fails later': lambda cfg, a, c: c.make_viewer().transform(lambda t: t * fail(t.ndim > 1)),
    'an edit of another shape': lambda cfg, a, c: TensorEditor.edit_controller(c).set_residuals(a['h'][None]),
    'an edit of an unknown name': lambda cfg, a, c: TensorEditor.edit_controller(c).set_accumulator('nope', a['h']),
    'an edit with another tree': lambda cfg, a, c: TensorEditor.edit_controller(c).set_defaults(list(cfg.accs)[0], [a['h']]),
    'an update edit of another shape': lambda cfg, a, c: TensorEditor.edit_controller(c).set_updates(list(cfg.accs)[0], jax.tree_util.tree_map(lambda t: t[None], c.accumulators[list(cfg.accs)[0]])),
    'a definition of another batch': lambda cfg, a, c: ControllerBuilder(c.save()).define_accumulator_directly('new', a['h'][None]),
    'a redefinition of integers': lambda cfg, a, c: ControllerBuilder(c.save()).define_accumulator_directly(list(cfg.accs)[0], jnp.zeros(cfg.batch, int)),
    'a shape that is none': lambda cfg, a, c: ControllerBuilder(c.save()).define_accumulator_by_shape('new', [2, 'x']),
    'a shape of another batch': lambda cfg, a, c: ControllerBuilder(c.save()).define_accumulator_by_shape('new', [7, 2]),
    'a name that is not there': lambda cfg, a, c: delete_definition(ControllerBuilder(c.save()), 'nope'),
}


def fail(flag):
    if flag:
        raise ValueError('no')
    return 1


def fit(cfg, a, c, f):
    """Caches everything, in place of the last accumulator's own what f makes of it (nothing, if f is None)."""
    for n in cfg.accs:
        t = tree(cfg, a, 'upd', n)
        if n == list(cfg.accs)[-1]:
            if f is None:
                continue
            t = jax.tree_util.tree_map(f, t)
        c = c.cache_update(n, t)
    return c


def refused_case(cfg, what):
    """A refused request leaves every object on the way to it as it was."""
    def run(a):
        facts, seen = {}, []
        c = controller(cfg, a, updates=[])
        real = ACT_Controller.__init__

        def watch(self, state):
            real(self, state)
            seen.append((self, mark(state), jax.tree_util.tree_leaves(state)))
        s0 = c.save()
        seen.append((c, mark(s0), jax.tree_util.tree_leaves(s0)))
        ACT_Controller.__init__ = watch
        try:
            REFUSED[what](cfg, a, c)
            facts[f'{what}: refused'] = False
        except Exception:
            pass
        finally:
            ACT_Controller.__init__ = real
        for k, (o, before, ts) in enumerate(seen):
            ident(facts, f'{what}: object {k}', before, o.save())
            now = jax.tree_util.tree_leaves(o.save())
            facts[f'{what}: object {k} has the same tensors'] = len(now) == len(ts) and all(x is y for x, y in zip(now, ts))
        out = outputs(cfg, c.save(), facts)
        return {**out, '!facts': facts}

    def post(I, O):
        for k in O:
            if k in I:
                for i in np.ndindex(*O[k].shape):
                    yield f'{what} does not change the original ({k})', same(O[k][i], I[k][i])
    ins = state_inputs(cfg, acc='any', default='any', update='any', p='any', r='any', it='any')
    ins['h'] = Inp(cfg.batch, cfg.core, 'any')
    ins['m'] = Inp(cfg.batch, 'b', 'any')
    return Case(f'C11:refused-{what}-{cfg.name}:fp'.replace(' ', '-'), ins, run, post, jit_replay=False)


def c11(tier):
    out = [refused_case(cfg, w) for w in REFUSED for cfg in (Cfg('names', (2,), {'z': L(), 'b': L(2), 'a': L(1, 2)}), Cfg('nested', (2,), {'o': L(3), 's': {'m': L(2), 'k': [L(), (L(1),)]}}))]
    cs = [Cfg('names', (2,), {'z': L(), 'b': L(2), 'a': L(1, 2)}), Cfg('nested', (2,), {'s': {'m': L(2), 'k': [L(), (L(1),)]}, 'o': L(3)})]
    if tier != 'quick':
        cs = [c for c in cfgs('quick') if c.core == 'f32']
    for cfg in cs:
        for act in ACTIONS:
            out.append(purity_case(cfg, act, lambda c: []))
            if act != 'reset':
                if act != 'cache':
                    out.append(purity_case(cfg, act, lambda c: list(c.accs)))
                out.append(purity_case(cfg, act, lambda c: list(c.accs)[1:]))
    return out


# S01 ------------------------------------------------------------------------------------
def pend_sets(cfg):
    ns = list(cfg.accs)
    sets = [[], ns]
    if len(ns) > 1:
        sets += [ns[:1], ns[1:]]
    return sets


def full_out(cfg, s, facts, pending, prefix=''):
    out = outputs(cfg, s, facts, prefix)
    for n in cfg.accs:
        facts[f'{prefix}update {n} pending as before'] = (s.updates.get(n) is not None) == (n in pending)
        if s.updates.get(n) is not None:
            ls, td = jax.tree_util.tree_flatten(s.updates[n])
            facts[f'{prefix}update {n} keeps its tree structure'] = td == leaves(cfg.accs[n])[1]
            for k, x in enumerate(ls):
                out[prefix + key('upd', n, k)] = x
    out[prefix + 'eps'] = jnp.asarray(s.epsilon, jnp.float32)
    out[prefix + 'dep'] = jnp.asarray(s.depression_constant, jnp.float32)
    return out


def identity_post(what, cfg, pending):
    def post(I, O):
        need = ['p', 'r', 'it'] + [key(w, n, k) for w in ('acc', 'def') for n, k, _ in cfg.leaf_list()] \
            + [key('upd', n, k) for n, k, _ in cfg.leaf_list() if n in pending]
        for k in need:
            if k not in O or O[k].shape != I[k].shape:
                yield f'{what} keeps {k}', const(False, 'b')
                continue
            for i in np.ndindex(*I[k].shape):
                yield f'{what} keeps {k}', same(O[k][i], I[k][i]) if O[k][i].dt == I[k][i].dt else const(False, 'b')
        if 'was' in O:
            for i in np.ndindex(*O['was'].shape):
                yield f'{what} keeps what has halted', Iff(O['was'][i], O['is'][i])
        for k in ('eps', 'dep'):
            if k in I:
                yield f'{what} keeps {k}', same(O[k].reshape(-1)[0], I[k].reshape(-1)[0])
            elif getattr(cfg, k) is not None:
                yield f'{what} keeps {k}', mk('eq', O[k].reshape(-1)[0], const(getattr(cfg, k), 'f32'))
    return post


def roundtrip(obj):
    leaves_, td = jax.tree_util.tree_flatten(obj)
    return jax.tree_util.tree_unflatten(td, leaves_)


def loop_carry(c):
    """Through a while_loop that runs once: structure, dtypes and values must survive."""
    return jax.lax.while_loop(lambda s: s[1] < 1, lambda s: (s[0], s[1] + 1), (c, 0))[0]


def weights(cfg, a, c):
    """Distinguishes fields that have the same shape: 2*x + position."""
    return c


S01_ACTS = {
    'flatten': lambda c: roundtrip(c),
    'twice': lambda c: roundtrip(roundtrip(c)),
    'map': lambda c: jax.tree_util.tree_map(lambda t: t, c),
    'jit': lambda c: jax.jit(lambda t: t)(c),
    'loop': lambda c: loop_carry(c),
    'viewer': lambda c: roundtrip(c.make_viewer()),
    'builder': lambda c: roundtrip(ControllerBuilder(c.save())),
    'state': lambda c: ACT_Controller.load(roundtrip(c.save())),
    'cond': lambda c: jax.lax.cond(True, lambda t: t, lambda t: t, c),
    'editor': lambda c: roundtrip(TensorEditor.edit_controller(c, 'standard')),
    'editor_silent': lambda c: jax.tree_util.tree_map(lambda t: t, TensorEditor.edit_save(c.save(), 'silence')),
}
CLASSES = {'viewer': lambda c: c.make_viewer(), 'builder': lambda c: ControllerBuilder(c.save()), 'state': lambda c: c.save(),
           'editor': lambda c: TensorEditor.edit_controller(c, 'standard'), 'editor_silent': lambda c: TensorEditor.edit_save(c.save(), 'silence')}
WAYS = {'jit': lambda o: jax.jit(lambda t: t)(o), 'loop': lambda o: loop_carry(o), 'cond': lambda o: jax.lax.cond(True, lambda t: t, lambda t: t, o)}
for n_, f_ in CLASSES.items():
    for w_, g_ in WAYS.items():
        S01_ACTS[f'{n_}/{w_}'] = lambda c, f_=f_, g_=g_: g_(f_(c))
    for w_, g_ in (('copy', copy.copy), ('deepcopy', copy.deepcopy)):
        S01_ACTS[f'{n_}/{w_}'] = lambda c, f_=f_, g_=g_: g_(f_(c))
S01_ACTS['copy'] = copy.copy
S01_ACTS['deepcopy'] = copy.deepcopy
KIND = {'viewer': ACTViewer, 'builder': ControllerBuilder, 'editor': TensorEditor, 'editor_silent': TensorEditor}


def saved(o):
    return o if isinstance(o, ACTStates) else o.state if isinstance(o, ControllerBuilder) else o.save()


def s01(tier):
    out = []
    for ci, cfg in enumerate(cfgs(tier)):
        for act, f in S01_ACTS.items():
            for si, pending in enumerate(pend_sets(cfg)):
                if tier == 'quick' and (ci + si + len(act)) % 2 and si > 1:
                    continue
                if tier == 'quick' and '/' in act and (si != 1 or cfg.name not in ('v2', 'names', 'nested', 'nodes', 'f16')):
                    continue

                def run(a, cfg=cfg, f=f, pending=pending, act=act):
                    facts = {}
                    c = controller(cfg, a, updates=pending)
                    c2 = f(c)
                    facts['the type is kept'] = type(c2) is KIND.get(act.split('/')[0], ACTStates if '/' in act else ACT_Controller)
                    if act.startswith('editor'):
                        facts['the error mode is kept'] = c2.error_mode == ('silence' if act.startswith('editor_silent') else 'standard')
                    out = full_out(cfg, saved(c2), facts, pending)
                    out['was'], out['is'] = c.halted_batches, ACT_Controller.load(saved(c2)).halted_batches
                    if act.split('/')[0] != 'state':
                        facts['still immutable'] = refused(c2)
                    out['!facts'] = facts
                    return out
                ins = state_inputs(cfg, acc='any', default='any', update='any', p='any', r='any', it='any')
                out.append(Case(f'S01:{act}-{cfg.name}-{si}:fp', ins, run, identity_post(f'a pytree round trip ({act})', cfg, pending),
                                traces=act.split('/')[-1] in ('jit', 'loop', 'cond')))
    out += jit_cases(tier)
    return out


def refused(o):
    try:
        o.state = None
    except AttributeError:
        return True
    return False


def jit_cases(tier):
    """iterate/reset/mask under jit return what they return outside it, for the controller as an argument."""
    out = []
    sel = ['v2', 'names', 'nested', 'b22', 'f16', 'scalar', 'f64', 'core64_acc32']
    for cfg in cfgs(tier):
        if tier == 'quick' and cfg.name not in sel:
            continue
        for op in ('iterate', 'reset', 'unhalted_only', 'mask'):
            def one(cfg, op):
                def f(c, a):
                    if op == 'iterate':
                        for n in cfg.accs:
                            c = c.cache_update(n, tree(cfg, a, 'upd', n))
                        return c.iterate_act(a['h'])
                    if op == 'reset':
                        return c.reset_batches()
                    if op == 'mask':
                        return c.make_viewer().mask_data(a['m'])
                    return c.make_viewer().unhalted_only()
                return f

            def run(a, cfg=cfg, op=op):
                facts = {}
                f = one(cfg, op)
                c = controller(cfg, a)
                out = outputs(cfg, f(c, a).save(), facts, 'A')
                out.update(outputs(cfg, jax.jit(f)(c, a).save(), facts, 'B'))
                out['!facts'] = facts
                return out

            def post(I, O, op=op):
                for k in O:
                    if k.startswith('A'):
                        for i in np.ndindex(*O[k].shape):
                            yield f'{op} gives the same under jit ({k[1:]})', ir.req(O[k][i], O['B' + k[1:]][i])
            ins = state_inputs(cfg, update='fin')
            ins['h'] = Inp(cfg.batch, cfg.core, 'unit')
            ins['m'] = Inp(cfg.batch, 'b', 'any')
            out.append(Case(f'S01:jit-{op}-{cfg.name}:fp', ins, run, post, tol=1e-4 if cfg.core == 'f32' else 2e-2, traces=True))
    return out


# S02 ------------------------------------------------------------------------------------
S02_ACTS = {
    'save and load': lambda c: ACT_Controller.load(c.save()),
    'save, loaded by a viewer, saved again': lambda c: ACT_Controller.load(ACTViewer.load(c.save()).save()),
    'make_viewer and save': lambda c: ACT_Controller.load(c.make_viewer().save()),
    'edit_save and build': lambda c: TensorEditor.edit_save(c.save()).build(),
    'edit_controller and build': lambda c: TensorEditor.edit_controller(c).build(),
    'edit_controller and save': lambda c: ACT_Controller.load(TensorEditor.edit_controller(c, 'silence').save()),
    'replace nothing': lambda c: ACT_Controller.load(c.save().replace()),
    'builder and build': lambda c: ControllerBuilder(c.save()).build(),
    'another definition': lambda c: delete_definition(ControllerBuilder(c.save()).define_accumulator_directly(
        'no such name', jnp.ones(c.probabilities.shape + (2,))), 'no such name').build(),
}
FIELDS = ['p', 'r', 'it', 'eps', 'dep', 'acc', 'def', 'upd']


def s02(tier):
    out = []
    for ci, cfg in enumerate(cfgs(tier)):
        for ai, (act, f) in enumerate(S02_ACTS.items()):
            sets = pend_sets(cfg)
            for si, pending in enumerate(sets if tier != 'quick' else [sets[(ci + ai) % len(sets)]]):
                def run(a, cfg=cfg, f=f, pending=pending):
                    facts = {}
                    c = controller(cfg, a, updates=pending)
                    c2 = f(c)
                    out = full_out(cfg, c2.save(), facts, pending)
                    facts['indexing gives the accumulator'] = all(
                        jax.tree_util.tree_structure(c2[n]) == leaves(cfg.accs[n])[1] for n in cfg.accs)
                    for n in cfg.accs:
                        for k, x in enumerate(jax.tree_util.tree_leaves(c2[n])):
                            out['item.' + key('acc', n, k)] = x
                    out['!facts'] = facts
                    return out

                def post(I, O, cfg=cfg, pending=pending, act=act):
                    yield from identity_post(act, cfg, pending)(I, O)
                    for k in O:
                        if k.startswith('item.'):
                            for i in np.ndindex(*O[k].shape):
                                yield f'indexing gives the accumulator ({k[5:]})', same(O[k][i], I[k[5:]][i])
                ins = state_inputs(cfg, acc='any', default='any', update='any', p='any', r='any', it='any')
                out.append(Case(f'S02:{ai}-{cfg.name}-{si}:fp', ins, run, post))
    for cfg in cfgs(tier):
        for who in ('controller', 'viewer', 'builder', 'editor'):
            out.append(property_case(cfg, who))
    for cfg in cfgs(tier):
        if tier == 'quick' and cfg.name not in ('v2', 'names', 'nested', 'scalar', 'square'):
            continue
        out.append(error_mode_case(cfg))
        for f in FIELDS:
            out.append(replace_case(cfg, f))
        for k in range(3):
            out.append(replace_updates(cfg, k))
    return out


def error_mode_case(cfg):
    """The error mode of a save is kept by everything that does not set it."""
    n0 = next(iter(cfg.accs))
    ways = {**S02_ACTS,
            'iterate': lambda c: c.iterate_act(jnp.zeros(cfg.batch, ir.np_of(cfg.core))), 'reset': lambda c: c.reset_batches(),
            'mask': lambda c: ACT_Controller.load(c.make_viewer().mask_data(jnp.ones(cfg.batch, bool)).save()),
            'unhalted': lambda c: ACT_Controller.load(c.make_viewer().unhalted_only().save()),
            'transform': lambda c: ACT_Controller.load(c.make_viewer().transform(lambda t: t).save()),
            'edit': lambda c: TensorEditor.edit_controller(c, 'silence').set_residuals(c.residuals).build(),
            'edit epsilon': lambda c: TensorEditor.edit_controller(c, 'silence').set_epsilon(0.25).build(),
            'edit accumulator': lambda c: TensorEditor.edit_controller(c, 'silence').set_accumulator(n0, c.accumulators[n0]).build(),
            'define': lambda c: ControllerBuilder(c.save()).define_accumulator_directly('zz', jnp.zeros(cfg.batch)).build()}

    def run(a):
        s = controller(cfg, a).save()
        facts = {'no error mode to begin with': s.error_mode is None}
        for mode in ('debug', 'other'):
            t = s.replace(error_mode=mode)
            facts[f'{mode}: it is replaced'] = t.error_mode == mode
            facts[f'{mode}: the old save keeps its own'] = s.error_mode is None
            facts[f'{mode}: flattened and put together again it is kept'] = roundtrip(t).error_mode == mode
            for f in dataclasses.fields(ACTStates):
                if f.name != 'error_mode':
                    u = t.replace(**{f.name: getattr(s, f.name)})
                    facts[f'{mode}: replacing {f.name} keeps it'] = u.error_mode == mode
            for w, g in ways.items():
                try:
                    c = ACT_Controller.load(t)
                    if w == 'iterate':
                        for n in cfg.accs:
                            c = c.cache_update(n, c.accumulators[n])
                    facts[f'{mode}: {w} keeps it'] = g(c).save().error_mode == mode
                except TypeError as e:      # a string cannot be traced
                    if 'str' not in str(e):
                        raise
        return {'p': s.probabilities, '!facts': facts}
    return Case(f'S02:error-mode-{cfg.name}:fp', state_inputs(cfg), run, lambda I, O: [])


def replace_updates(cfg, k):
    """New updates replace the old ones whole: also when they are empty, or of other names."""
    ns = list(cfg.accs)
    keep = [[], ns[1:], ns[:1]][k]

    def run(a):
        facts = {}
        s = controller(cfg, a, updates=ns).save()
        new = {n: (s.updates[n] if n in keep else None) for n in ns}
        out = full_out(cfg, s.replace(updates=new), facts, keep)
        only = s.replace(updates={n: s.updates[n] for n in keep})
        facts['the updates are those given'] = set(only.updates) == set(keep)
        less = s.replace(accumulators={n: s.accumulators[n] for n in keep}, defaults={n: s.defaults[n] for n in keep})
        facts['the accumulators are those given'] = set(less.accumulators) == set(keep) and set(less.updates) == set(ns)
        facts['the defaults are those given'] = set(less.defaults) == set(keep)
        out['!facts'] = facts
        return out
    ins = state_inputs(cfg, acc='any', default='any', update='any', p='any', r='any', it='any')
    return Case(f'S02:replace-names{k}-{cfg.name}:fp', ins, run, identity_post('replacing updates', cfg, keep))


def replace_case(cfg, field):
    """Replacing one field of a save changes that field and no other, even when the new value is zero."""
    ins = state_inputs(cfg, acc='any', default='any', update='any', p='any', r='any', it='any')
    new = {('2' + k): Inp(v.shape, v.dt, 'any' if not v.weak else 'fin', v.weak) for k, v in ins.items()
           if k == field or k.split('.')[0] == field}
    if not new:
        new = {'2' + field: Inp((), 'f32', 'any', True)}
    pending = list(cfg.accs)
    kw = {'p': 'probabilities', 'r': 'residuals', 'it': 'iterations', 'eps': 'epsilon', 'dep': 'depression_constant',
          'acc': 'accumulators', 'def': 'defaults', 'upd': 'updates'}[field]

    def run(a):
        facts = {}
        c = controller(cfg, a, updates=pending)
        b = {k[1:]: v for k, v in a.items() if k.startswith('2')}
        val = {n: tree(cfg, b, field, n) for n in cfg.accs} if field in ('acc', 'def', 'upd') else b[field]
        s = c.save().replace(**{kw: val})
        out = full_out(cfg, s, facts, pending)
        out['!facts'] = facts
        return out

    def post(I, O):
        J = dict(I)
        for k in new:
            J[k[1:]] = I[k]
        yield from identity_post(f'replacing {kw}', cfg, pending)(J, O)
    return Case(f'S02:replace-{field}-{cfg.name}:fp', {**ins, **new}, run, post)


def property_case(cfg, who):
    """Every class shows the tensors of the state it was made from."""
    pending = list(cfg.accs)[:1]

    def run(a):
        facts = {}
        c = controller(cfg, a, updates=pending)
        o = {'controller': lambda: c, 'viewer': lambda: c.make_viewer(), 'builder': lambda: ControllerBuilder(c.save()),
             'editor': lambda: TensorEditor.edit_controller(c)}[who]()
        s = dataclasses.replace(c.save())
        kw = dict(probabilities=o.probabilities, residuals=o.residuals, iterations=o.iterations, accumulators=o.accumulators)
        if who != 'controller':
            kw.update(defaults=o.defaults, updates=o.updates)
        if who in ('builder', 'editor'):
            kw.update(epsilon=o.epsilon)
        if who == 'controller':
            kw.update(depression_constant=o.depression_constant)
        out = full_out(cfg, dataclasses.replace(s, **kw), facts, pending)
        if who == 'controller':
            facts['an accumulator is had by its name'] = all(same_tree(c[n], c.accumulators[n]) for n in cfg.accs)
            for n in ('no such name', 12345, None):
                try:
                    c[n]
                    facts[f'{n!r} is the name of nothing, and asking for it fails'] = False
                except Exception:
                    pass
        out['!facts'] = facts
        return out

    def same_tree(t, u):
        x, y = jax.tree_util.tree_flatten(t), jax.tree_util.tree_flatten(u)
        return x[1] == y[1] and all(i is j for i, j in zip(x[0], y[0]))
    ins = state_inputs(cfg, acc='any', default='any', update='any', p='any', r='any', it='any')
    return Case(f'S02:property-{who}-{cfg.name}:fp', ins, run, identity_post(f'the properties of the {who} show', cfg, pending))
