"""Configurations (shapes, trees, dtypes) and the symbolic controller state."""
import collections
import dataclasses
from typing import Any
import numpy as np
from . import env
import jax
from jax import numpy as jnp
from . import ir
from .harness import Inp, Out, Case
from src.jax_act.core.controller import ACT_Controller
from src.jax_act.core.builder import ControllerBuilder
from src.jax_act.core.states import ACTStates


class L:
    """A leaf: the dimensions after the batch dimensions, and a dtype."""

    def __init__(self, *extra, dt='f32'):
        self.extra, self.dt = tuple(extra), dt


def leaves(tree):
    return jax.tree_util.tree_flatten(tree, is_leaf=lambda x: isinstance(x, L))


class Pair(collections.namedtuple('Pair', ['left', 'right'])):
    """A named tuple as an accumulator."""


@jax.tree_util.register_pytree_node_class
@dataclasses.dataclass
class Memory:
    """A registered dataclass as an accumulator, the way flax.struct and chex make them."""
    state: Any
    tag: Any = 'kept'

    def tree_flatten(self):
        return (self.state,), self.tag

    @classmethod
    def tree_unflatten(cls, tag, children):
        return cls(children[0], tag)


class Cfg:
    def __init__(self, name, batch, accs, core='f32', eps=None, dep=None, hdt=None, strong=False):
        self.name, self.batch, self.accs, self.core = name, tuple(batch), accs, core
        # strong: epsilon and the depression constant are float32 arrays rather than Python floats
        self.eps, self.dep, self.hdt, self.strong = eps, dep, hdt or core, strong
        self.wide = core == 'f64' or any(l.dt == 'f64' for _, _, l in self.leaf_list())     # runs with 64 bit tensors

    def leaf_list(self):
        """[(accumulator, leaf index, L)]"""
        out = []
        for n, t in self.accs.items():
            for k, l in enumerate(leaves(t)[0]):
                out.append((n, k, l))
        return out

    def shape(self, l):
        return self.batch + l.extra


def key(prefix, n, k):
    return f'{prefix}.{n}.{k}'


def state_inputs(cfg, acc='fin', default='fin', update=None, p='unit', r='unit', it='nat', only=None):
    """The symbolic inputs which make up a controller state."""
    d = {'p': Inp(cfg.batch, cfg.core, p), 'r': Inp(cfg.batch, cfg.core, r), 'it': Inp(cfg.batch, cfg.core, it)}
    if cfg.eps is None:
        d['eps'] = Inp((), 'f64' if cfg.wide else 'f32', ('eps', cfg.core), weak=not cfg.strong)
    if cfg.dep is None:
        d['dep'] = Inp((), 'f64' if cfg.wide else 'f32', 'dep', weak=not cfg.strong)
    for n, k, l in cfg.leaf_list():
        d[key('acc', n, k)] = Inp(cfg.shape(l), l.dt, acc)
        d[key('def', n, k)] = Inp(cfg.shape(l), l.dt, default)
        if update:
            d[key('upd', n, k)] = Inp(cfg.shape(l), l.dt, update)
    return d


def tree(cfg, a, prefix, n):
    ls, td = leaves(cfg.accs[n])
    return jax.tree_util.tree_unflatten(td, [a[key(prefix, n, k)] for k in range(len(ls))])


def eps_of(cfg, a):
    return a['eps'] if cfg.eps is None else cfg.eps


def dep_of(cfg, a):
    return a['dep'] if cfg.dep is None else cfg.dep


def controller(cfg, a, updates=None):
    """A controller in the symbolic state.  updates: names whose update is pending."""
    b = ControllerBuilder.new_builder(list(cfg.batch), core_dtype=ir.np_of(cfg.core))
    for n in cfg.accs:
        b = b.define_accumulator_directly(n, tree(cfg, a, 'def', n))
    s = b.build().save()
    s = dataclasses.replace(
        s, epsilon=eps_of(cfg, a), depression_constant=dep_of(cfg, a), probabilities=a['p'], residuals=a['r'],
        iterations=a['it'], accumulators={n: tree(cfg, a, 'acc', n) for n in cfg.accs},
        updates={n: (tree(cfg, a, 'upd', n) if updates and n in updates else None) for n in cfg.accs})
    return ACT_Controller.load(s)


def mode_case(prop, ways):
    """The error mode of the save an operation starts from is still there afterwards, and the operation does not change that save."""
    cfg = Cfg('mode', (2,), {'x': L(2), 'y': [L()]}, eps=0.25, dep=1.0)

    def run(a):
        facts = {}
        for mode in ('debug', 'checkify', 'other'):
            for n, f in ways.items():
                s = controller(cfg, a).save().replace(error_mode=mode)
                t = f(s)
                facts[f'{n}: {mode} is kept'] = t.error_mode == mode and s.error_mode == mode
        return {'p': a['p'], '!facts': facts}
    return Case(f'{prop}:error-mode:fp', state_inputs(cfg), run, lambda I, O: [], jit_replay=False)


def outputs(cfg, s, facts=None, prefix=''):
    """Flatten a save (ACTStates) into named results."""
    out = {prefix + 'p': s.probabilities, prefix + 'r': s.residuals, prefix + 'it': s.iterations}
    f = {} if facts is None else facts
    f[prefix + 'accumulator names are kept'] = set(s.accumulators) == set(cfg.accs)
    f[prefix + 'default names are kept'] = set(s.defaults) == set(cfg.accs)
    f[prefix + 'update names are kept'] = set(s.updates) == set(cfg.accs)
    for what, d in (('acc', s.accumulators), ('def', s.defaults)):
        for n in cfg.accs:
            if n not in d:
                continue
            ls, td = jax.tree_util.tree_flatten(d[n])
            f[f'{prefix}{what} {n} keeps its tree structure'] = td == leaves(cfg.accs[n])[1]
            for k, x in enumerate(ls):
                out[prefix + key(what, n, k)] = x
    return out


def declared(cfg, prefix='', hd=None):
    o = {prefix + 'p': Out(cfg.batch, cfg.core), prefix + 'r': Out(cfg.batch, cfg.core),
         prefix + 'it': Out(cfg.batch, cfg.core)}
    for n, k, l in cfg.leaf_list():
        o[prefix + key('acc', n, k)] = Out(cfg.shape(l), l.dt)
        o[prefix + key('def', n, k)] = Out(cfg.shape(l), l.dt)
    return o


def thr(cfg, I):
    """The halting threshold the way a user reads it: one minus epsilon, in the probabilities' dtype."""
    if cfg.eps is None:
        e = I['eps'].reshape(-1)[0]
        t = 1 - e
        return ir.conv(t, cfg.core)
    return ir.const(ir.np_of(cfg.core)(1 - cfg.eps), cfg.core)


def dep(cfg, I):
    if cfg.dep is None:
        return ir.conv(I['dep'].reshape(-1)[0], cfg.core)
    return ir.const(cfg.dep, cfg.core)


def idx(cfg, shape):
    """(element index, batch index)"""
    for i in np.ndindex(*shape):
        yield i, i[:len(cfg.batch)]


# ------------------------------------------------------------------ the configuration matrix
def mixed_cfgs(tier='quick'):
    """Settings given as arrays, and halting probabilities that are not of the core dtype (goals over the reals)."""
    one = lambda *e, **k: {'x': L(*e, **k)}
    C = [Cfg('strong', (2,), one(2), strong=True), Cfg('strong16', (2,), one(2, dt='f16'), core='f16', strong=True),
         Cfg('strong_mix', (2,), {'x': L(2, dt='f32'), 'y': L(dt='bf16')}, core='f16', strong=True),
         Cfg('h32', (2,), one(2, dt='f16'), core='f16', hdt='f32'), Cfg('h16', (2,), one(2), hdt='f16')]
    if tier != 'quick':
        C += [Cfg('strong_bf16', (2, 2), one(dt='bf16'), core='bf16', strong=True, hdt='f32'), Cfg('strong_scalar', (), one(dt='f16'), core='f16', strong=True),
              Cfg('h_bf16', (2,), one(2, dt='f16'), core='f16', hdt='bf16'), Cfg('strong_dep', (3,), {'s': [L(), L(2)]}, eps=0.25, core='f16', strong=True, hdt='f32')]
    return C


def delete_definition(b, n):
    return (getattr(b, 'delete_definition', None) or b._delete_definition)(n)


def cfgs(tier='quick'):
    one = lambda *e, **k: {'x': L(*e, **k)}
    C = [
        Cfg('v2', (2,), one(3)),
        Cfg('v3e', (3,), one(), eps=1e-4, dep=1.0),
        Cfg('scalar', (), one()),
        Cfg('scalar_wide', (), one(2)),
        Cfg('b1', (1,), one(1)),
        Cfg('square', (2,), one(2)),
        Cfg('square3', (3,), {'x': L(3), 'a': L(3, 3)}),
        Cfg('b22', (2, 2), one(2)),
        Cfg('b21', (2, 1), one(1, 2)),
        Cfg('b12', (1, 2), one(2, 1)),
        Cfg('b222', (2, 2, 2), one(2)),
        Cfg('deep', (2,), one(1, 2, 2)),
        Cfg('deeper', (2,), one(2, 1, 2, 2)),
        Cfg('names', (2,), {'z': L(), 'b': L(2), 'a': L(1, 2), 'z2': L(2)}),
        Cfg('nested', (2,), {'s': {'m': L(2), 'k': [L(), (L(1), L(2, 2))]}, 'o': L(3)}),
        Cfg('nested22', (2, 2), {'s': (L(), {'q': L(2)}), 'o': [L(1)]}),
        Cfg('single', (2,), {'t': (L(2),), 'd': {'a': L(2)}}),
        Cfg('empty_leaf', (2,), {'x': L(0), 'y': L()}),
        Cfg('empty_tree', (2,), {'x': {}, 'y': (L(), ())}),
        Cfg('nodes', (2,), {'m': Memory(L(2), 'other'), 'p': Pair(L(), {'k': Memory([L(1)])}), 'n': (None, L(2)),
                            'o': collections.OrderedDict([('z', L()), ('a', L(2))])}),
        Cfg('b5', (5,), one(2)),
        Cfg('many', (2,), {f'n{k}': L(*([k % 3 + 1] if k % 2 else [])) for k in (3, 0, 4, 1, 5, 2)}),
        Cfg('b33_', (33,), one()),
        Cfg('b6x6', (6, 6), one(), eps=1e-4, dep=1.0),
        Cfg('wide40', (2,), one(40), eps=1e-4, dep=1.0),
        Cfg('b0', (0,), {'x': L(2), 'y': L()}),
        Cfg('b2x0', (2, 0), {'x': L(2), 't': [L(), L(0)]}),
        Cfg('big', (2,), {'x': L(20, 30), 'y': L()}, eps=1e-4, dep=1.0),
        Cfg('rank6', (2,), {'x': L(1, 2, 1, 2, 1), 'y': L()}),
        Cfg('batch5d', (1, 2, 1, 1, 2), {'x': L(2), 'y': L()}),
        Cfg('twelve', (2,), {f'acc{k}': L(*([2] if k % 4 == 0 else [])) for k in (11, 3, 0, 10, 7, 1, 2, 9, 4, 8, 6, 5)}),
        Cfg('oddnames', (2,), {'': L(2), 'a b': L(), 'a.b/c': L(1), 'B': L(), 'b': L(), '\u00e9': L(2), 'x' * 60: L()}),
        Cfg('intnames', (2,), {10: L(2), 2: L(), 1: {20: L(), 3: L(1)}}),
        Cfg('deepnest', (2,), {'t': [[[[{'a': [(L(), [L(2)])]}]]], [], {'z': L(1), 'b': {'y': (L(),)}}]}),
        Cfg('f16', (2,), one(2, dt='f16'), core='f16'),
        Cfg('bf16', (2,), one(2, dt='bf16'), core='bf16'),
        Cfg('core32_acc16', (2,), {'x': L(2, dt='f16'), 'y': L(dt='f32')}),
        Cfg('core16_acc32', (2,), {'x': L(2, dt='f32'), 'y': L(dt='f16')}, core='f16'),
        Cfg('f64', (2,), one(2, dt='f64'), core='f64', eps=0.01, dep=2.0),
        Cfg('core32_acc64', (2,), {'x': L(2, dt='f64'), 'y': L(dt='f32')}, eps=0.25, dep=1.0),
        Cfg('core64_acc32', (2,), {'x': L(2, dt='f32'), 'y': [L(dt='f64')]}, core='f64', eps=0.25, dep=0.75),
        Cfg('epsbig', (2,), one(2), eps=0.5, dep=0.75),
        Cfg('eps01', (2, 2), {'y': L(2), 'x': L()}, eps=0.01, dep=2.0),
    ]
    if tier != 'quick':
        C += [
            Cfg('b9', (9,), one(2)),
            Cfg('b33', (3, 3), {'x': L(3), 'y': L(3, 3)}),
            Cfg('b1111', (1, 2, 1, 2), one(2, 1)),
            Cfg('b23', (2, 3), {'x': L(3, 2), 'y': L()}),
            Cfg('b17', (17,), {'x': L(5), 'y': L(17)}),
            Cfg('b130', (130,), one()),
            Cfg('bf16acc', (2, 2), {'x': L(2, dt='bf16'), 'y': L(dt='f16'), 'w': {'a': L(dt='f32')}}),
            Cfg('epstiny', (2,), one(2), eps=1e-6, dep=1.0),
            Cfg('epshuge', (3,), one(), eps=0.99, dep=0.1),
            Cfg('nested3', (2, 2, 2), {'s': {'m': [L(), {'q': (L(2), L(2, 2))}]}, 'o': {}, 'r': L(2, 2)}),
            Cfg('wide', (2,), one(11)),
        ]
    return C
