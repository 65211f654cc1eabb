"""Properties of one call to iterate_act, from an arbitrary state."""
from ..common import *
from .. import ir
from ..harness import LO
from ..ir import And, Or, Not, Implies, If, same, req, Iff, conv, mk, const, Max, Min


def step_run(cfg, via='cache'):
    def run(a):
        facts = {}
        if via == 'state':
            c = controller(cfg, a, updates=list(cfg.accs))
        else:
            c = controller(cfg, a)
            for n in (cfg.accs if via == 'cache' else reversed(list(cfg.accs))):
                c = c.cache_update(n, tree(cfg, a, 'upd', n))
        c2 = c.iterate_act(a['h'])
        out = outputs(cfg, c2.save(), facts)
        out['halted'] = c2.halted_batches
        out['!facts'] = facts
        return out
    return run


def step_outs(cfg):
    o = declared(cfg)
    o['halted'] = Out(cfg.batch, 'b')
    return o


def step_case(pid, cfg, post, mode='fp', h='number', update='any', acc='any', default='any', via='cache', p='unit', **kw):
    if mode == 're':
        update, acc, default = 'fin', 'fin', 'fin'
    ins = state_inputs(cfg, acc=acc, default=default, update=update, p=p)
    ins['h'] = Inp(cfg.batch, cfg.hdt, h)
    return Case(f'{pid}:{cfg.name}:{mode}', ins, step_run(cfg, via), post, step_outs(cfg), mode=mode, **kw)


def core(cfg, I, i):
    """(p, r, it, h) of one batch element."""
    return I['p'][i], I['r'][i], I['it'][i], conv(I['h'][i], cfg.core)


def clip(h):
    return Min(Max(h, 0), 1)


def halts(cfg, I, i):
    """Would this element be at or past the threshold once its weighted halting probability is added?"""
    p, r, it, h = core(cfg, I, i)
    return dep(cfg, I) * clip(h) + p > thr(cfg, I)


# C01 ------------------------------------------------------------------------------------
def c01(tier):
    out = []
    for cfg in cfgs(tier):
        def post(I, O, cfg=cfg):
            t = thr(cfg, I)
            for i in np.ndindex(*cfg.batch):
                p, q = I['p'][i], O['p'][i]
                yield 'a cumulative probability never exceeds one', q <= 1
                yield 'a cumulative probability never decreases', p <= q
                yield 'a halted element has a cumulative probability of exactly one', Implies(q > t, mk('eq', q, const(1, cfg.core)))
                yield 'the element reads as halted exactly when past the threshold', Iff(O['halted'][i], q > t)
        out.append(step_case('C01', cfg, post))
    return out


# C02 ------------------------------------------------------------------------------------
def c02(tier):
    out, mixed = [], mixed_cfgs(tier)
    for cfg in cfgs(tier) + mixed:
        def post(I, O, cfg=cfg):
            t = thr(cfg, I)
            for i in np.ndindex(*cfg.batch):
                was = I['p'][i] > t
                yield 'an element halts exactly when its mass first exceeds one minus epsilon', Iff(O['halted'][i], Or(was, halts(cfg, I, i)))
                yield 'a halted element stays halted', Implies(was, O['halted'][i])
        out.append(step_case('C02', cfg, post, mode='re', h='fin'))
        if cfg in mixed:
            continue
        def post2(I, O, cfg=cfg):
            t = thr(cfg, I)
            for i in np.ndindex(*cfg.batch):
                yield 'a halted element stays halted', Implies(I['p'][i] > t, O['halted'][i])
        out.append(step_case('C02', cfg, post2))
        out.append(flags_case(cfg))
    return out


def flags_case(cfg):
    def run(a):
        c = controller(cfg, a)
        v = c.make_viewer()
        return {'halted': c.halted_batches, 'all': c.is_completely_halted, 'any': c.is_any_halted,
                'thr': jnp.asarray(c.halt_threshold), 'vthr': jnp.asarray(v.halt_threshold), 'vhalted': v.halted_batches}

    def post(I, O):
        t = thr(cfg, I)
        hs = []
        for i in np.ndindex(*cfg.batch):
            h = I['p'][i] > t
            hs.append(h)
            yield 'the halted flag is probability > 1 - epsilon', Iff(O['halted'][i], h)
            yield 'the viewer agrees', Iff(O['vhalted'][i], h)
        yield 'completely halted means every element', Iff(O['all'].reshape(-1)[0], And(hs))
        yield 'any halted means at least one element', Iff(O['any'].reshape(-1)[0], Or(hs))
        if cfg.eps is None:
            yield 'the threshold is one minus epsilon', same(O['thr'].reshape(-1)[0], 1 - I['eps'].reshape(-1)[0])
            yield 'the viewer threshold is one minus epsilon', same(O['vthr'].reshape(-1)[0], 1 - I['eps'].reshape(-1)[0])
    outs = {'halted': Out(cfg.batch, 'b'), 'all': Out((), 'b'), 'any': Out((), 'b'), 'thr': Out((), None),
            'vthr': Out((), None), 'vhalted': Out(cfg.batch, 'b')}
    return Case(f'C02:flags-{cfg.name}:fp', state_inputs(cfg, p='wild'), run, post, outs)


# C03 ------------------------------------------------------------------------------------
def each(cfg, I, O, prefix='acc'):
    """(accumulator, name of the array, element, batch element)"""
    for n, k, l in cfg.leaf_list():
        for i, b in idx(cfg, cfg.shape(l)):
            yield key(prefix, n, k), key('upd', n, k), i, b


def c03(tier):
    out = []
    for cfg in cfgs(tier):
        def post(I, O, cfg=cfg):
            t = thr(cfg, I)
            for i in np.ndindex(*cfg.batch):
                was = I['p'][i] > t
                yield 'the residual of a halted element is frozen', Implies(was, same(O['r'][i], I['r'][i]))
                yield 'the iteration count of a halted element is frozen', Implies(was, same(O['it'][i], I['it'][i]))
            for a, u, i, b in each(cfg, I, O):
                was = I['p'][b] > t
                yield f'the accumulator of a halted element is frozen ({a})', Implies(was, same(O[a][i], I[a][i]))
        out.append(step_case('C03', cfg, post, h='any'))
        # a whole further round, through the public path
    return out


# C04 ------------------------------------------------------------------------------------
def weight(cfg, I, b):
    p, r, it, h = core(cfg, I, b)
    return If(halts(cfg, I, b), 1 - p, dep(cfg, I) * clip(h))


def c04(tier):
    out, mixed = [order_case('C04', 'step')], mixed_cfgs(tier)
    for k, cfg in enumerate(cfgs(tier) + mixed):
        def post(I, O, cfg=cfg):
            t = thr(cfg, I)
            for a, u, i, b in each(cfg, I, O):
                x = I[a][i]
                w = conv(weight(cfg, I, b), x.dt)
                yield f'the update is added with its share of the mass ({a})', \
                    Implies(Not(I['p'][b] > t), req(O[a][i], x + w * I[u][i]))
        out.append(step_case('C04', cfg, post, mode='re', h='fin', via=['cache', 'reverse', 'state'][k % 3]))
        if cfg in mixed:
            continue
        def post2(I, O, cfg=cfg):
            t = thr(cfg, I)
            for a, u, i, b in each(cfg, I, O):
                d = a.replace('acc.', 'def.', 1)
                yield f'the defaults are untouched ({d})', same(O[d][i], I[d][i])
                yield f'no mass, no change ({a})', Implies(And(mk('eq', conv(I['h'][b], cfg.core), const(0, cfg.core)), Not(O['halted'][b])),
                                                          mk('eq', O[a][i], I[a][i]))
        out.append(step_case('C04', cfg, post2, h='unit', update='fin', acc='fin'))
        if cfg.name in NONFINITE or tier != 'quick':
            out.append(nonfinite_case('C04', cfg))
    out += [alias_case('C04', k) for k in range(4)] + unit_cases('C04')
    out += [numpy_case('C04', k) for k in range(len(NUMPY))]
    out += [kinds_case('C04', *k) for k in KINDS]
    for cfg in precise_cfgs(tier):
        def post3(I, O, cfg=cfg):
            for a, u, i, b in each(cfg, I, O):
                x = I[a][i]
                g = conv(weight(cfg, I, b), x.dt) * I[u][i]
                yield f'the sum is formed at the precision of the accumulator ({a})', Implies(
                    And(Not(I['p'][b] > thr(cfg, I)), Iff(O['halted'][b], halts(cfg, I, b))), near(O[a][i], x + g, mk('abs', x) + mk('abs', g)))
        out.append(step_case('C04:precise', cfg, post3, h='unit', update='fin', acc='fin', soft=True, timeout=20))
    return out


NONFINITE = ('v2', 'square', 'nested', 'b22', 'f16', 'core32_acc16', 'scalar', 'acc32')


def nonfinite_case(pid, cfg):
    """An update that is not a number is not hidden: it reaches the accumulator of a running element with mass, and nothing else."""
    def post(I, O):
        for a, u, i, b in each(cfg, I, O):
            x, v = I[a][i], I[u][i]
            p, r, it, h = core(cfg, I, b)
            one = dep(cfg, I) >= const(0.0625, cfg.core)
            mass = And(Not(p > thr(cfg, I)), Not(O['halted'][b]), one, h >= const(0.0625, cfg.core))
            fin = mk('finite', x)
            nan = lambda y: Not(mk('eq', y, y))
            inf = lambda y: And(Not(mk('finite', y)), Not(nan(y)))
            yield f'an update that is not a number shows ({a})', Implies(And(mass, nan(v)), nan(O[a][i]))
            yield f'an infinite update shows ({a})', Implies(And(mass, fin, inf(v)), same(O[a][i], v))
            yield f'what is not a number already stays so ({a})', Implies(And(Not(p > thr(cfg, I)), nan(x)), nan(O[a][i]))
    return step_case(f'{pid}:nonfinite', cfg, post, h='number', update='any', acc='any')


NUMPY = ('update', 'halting', 'both')


KINDS = (('i32', 'f32'), ('b', 'f32'), ('f32', 'i32'), ('f32', 'b'), ('f32', 'f16'), ('f32', 'bf16'), ('i32', 'i32'), ('b', 'b'))


def kinds_case(pid, hdt, udt):
    """Halting inputs and updates that are integers, booleans, or of a narrower dtype than the accumulator."""
    cfg = Cfg('kinds', (2,), {'x': L(2), 't': {'m': [L()], 'k': L(1)}}, eps=0.0625, dep=0.75)

    def run(a):
        facts = {}
        c = controller(cfg, a)
        for n in cfg.accs:
            c = c.cache_update(n, tree(cfg, a, 'upd', n))
        c = c.iterate_act(a['h'])
        facts['no update is pending after the step'] = not c.has_cached_updates
        return {**outputs(cfg, c.save(), facts), '!facts': facts}

    def post(I, O):
        one = lambda t: t if t.dt not in ('b',) else If(t, const(1.0, 'f32'), const(0.0, 'f32'))
        num = lambda t: conv(one(t), 'f32')
        t = thr(cfg, I)
        for i in np.ndindex(*cfg.batch):
            p, h = I['p'][i], clip(num(I['h'][i]))
            over = 0.75 * h + p > t
            yield f'halting {hdt}: the cumulative probability', req(O['p'][i], If(Or(p > t, over), const(1.0, 'f32'), 0.75 * h + p))
        for n, k, l in cfg.leaf_list():
            for i, b in idx(cfg, cfg.shape(l)):
                p, h, x = I['p'][b], clip(num(I['h'][b])), I[key('acc', n, k)][i]
                w = If(0.75 * h + p > t, 1 - p, 0.75 * h)
                yield f'halting {hdt}, update {udt}: added with its weight ({n} {k})', req(O[key('acc', n, k)][i], If(p > t, x, x + w * num(I[key('upd', n, k)][i])))
                yield f'halting {hdt}, update {udt}: the default is kept ({n} {k})', req(O[key('def', n, k)][i], I[key('def', n, k)][i])
    dom = lambda dt: {'i32': ('range', -4, 4), 'b': 'any'}.get(dt, 'fin')
    ins = state_inputs(cfg)
    for n, k, l in cfg.leaf_list():
        ins[key('upd', n, k)] = Inp(cfg.shape(l), udt, dom(udt))
    ins['h'] = Inp(cfg.batch, hdt, dom(hdt))
    return Case(f'{pid}:kinds-{hdt}-{udt}:re', ins, run, post, declared(cfg), mode='re')


def numpy_case(pid, kind):
    """NumPy arrays in place of JAX arrays: the arrays are fixed, the rest is symbolic."""
    cfg = Cfg('numpy', (2,), {'x': L(2), 't': {'m': [L()], 'k': L(1)}}, eps=1e-4, dep=1.0)
    U = {'x': np.array([[1.5, -2], [.25, 3]], np.float32), 't': {'m': [np.array([4, -.5], np.float32)], 'k': np.array([[2], [1]], np.float32)}}
    H = np.array([.25, 1.5], np.float32)
    what = NUMPY[kind]

    def run(a):
        facts = {}
        c = controller(cfg, a)
        for n in cfg.accs:
            c = c.cache_update(n, U[n] if what in ('update', 'both') else tree(cfg, a, 'upd', n))
        c = c.iterate_act(H if what in ('halting', 'both') else a['h'])
        facts['no update is pending after the step'] = not c.has_cached_updates
        out = outputs(cfg, c.save(), facts)
        back = outputs(cfg, c.reset_batches().save(), facts, 'reset.')
        return {**out, **back, '!facts': facts}

    def post(I, O):
        lv = lambda t, n, k: jax.tree_util.tree_leaves(t[n])[k]
        for n, k, l in cfg.leaf_list():
            for i, b in idx(cfg, cfg.shape(l)):
                d = I[key('def', n, k)][i]
                x = I[key('acc', n, k)][i]
                u = const(lv(U, n, k)[i], 'f32') if what in ('update', 'both') else I[key('upd', n, k)][i]
                h = const(H[b], 'f32') if what in ('halting', 'both') else I['h'][b]
                p, t = I['p'][b], thr(cfg, I)
                w = If(clip(h) + p > t, 1 - p, clip(h))
                want = If(p > t, x, x + w * u)
                over = Or(p > t, clip(h) + p > t)
                yield f'NumPy {what}: the update is added with its weight ({n} {k})', req(O[key('acc', n, k)][i], want)
                yield f'NumPy {what}: the default is kept ({n} {k})', req(O[key('def', n, k)][i], d)
                yield f'NumPy {what}: a reset takes back the halted ({n} {k})', req(O['reset.' + key('acc', n, k)][i], If(over, d, want))
    ins = state_inputs(cfg, update='fin')
    ins['h'] = Inp(cfg.batch, cfg.hdt, 'fin')
    return Case(f'{pid}:numpy-{what}:re', ins, run, post, mode='re')


def unit_cases(pid):
    """Accumulating ones from nothing shows the weight itself, to the last digit."""
    out = []
    for core_, acc in (('f64', 'f64'), ('f64', 'f32'), ('f32', 'f64'), ('f32', 'f32'), ('f16', 'f64'), ('f16', 'f32'), ('f32', 'bf16')):
        cfg = Cfg(f'unit-{core_}-{acc}', (2,), {'x': L(dt=acc), 't': [L(1, dt=acc)]}, core=core_, eps=0.125, dep=1.0)

        def run(a, cfg=cfg):
            full = {key(w, n, k): jnp.full(cfg.shape(l), float(w == 'upd'), ir.np_of(l.dt)) for w in ('acc', 'def', 'upd') for n, k, l in cfg.leaf_list()}
            c = controller(cfg, {**a, **full}, updates=list(cfg.accs)).iterate_act(a['h'])
            return {key('acc', n, k): c.accumulators[n] if n == 'x' else c.accumulators[n][k] for n, k, l in cfg.leaf_list()}

        def post(I, O, cfg=cfg):
            for n, k, l in cfg.leaf_list():
                for i, b in idx(cfg, cfg.shape(l)):
                    yield 'ones accumulated from nothing are the weight', Implies(Not(I['p'][b] > thr(cfg, I)), mk('eq', O[key('acc', n, k)][i], conv(weight(cfg, I, b), l.dt)))
        ins = {'p': Inp(cfg.batch, core_, 'unit'), 'r': Inp(cfg.batch, core_, 'unit'), 'it': Inp(cfg.batch, core_, 'nat'), 'h': Inp(cfg.batch, core_, 'unit')}
        out.append(Case(f'{pid}:{cfg.name}:fp', ins, run, post, {key('acc', n, k): Out(cfg.shape(l), l.dt) for n, k, l in cfg.leaf_list()}, x64=cfg.wide))
    return out


ALIAS = ('one update for all', 'the accumulator as its update', 'the default as the update', 'one definition for all')


def order_case(pid, what):
    """A loaded save whose accumulators, defaults and updates are not in the same order: what belongs together has the same name."""
    cfg = Cfg('order', (2,), {'b': L(2), 'a': L(2), 'c': L(2)})
    turn = lambda d, k: {n: d[n] for n in (list(d)[k:] + list(d)[:k])}

    def run(a):
        facts = {}
        s = controller(cfg, a, updates=list(cfg.accs) if what == 'step' else None).save()
        t = s.replace(updates=turn(s.updates, 1), defaults=turn(s.defaults, 2), accumulators=turn(s.accumulators, 0))
        f = (lambda c: c.iterate_act(a['h'])) if what == 'step' else (lambda c: c.reset_batches())
        out = outputs(cfg, f(ACT_Controller.load(s)).save(), facts, 'W')
        out.update(outputs(cfg, f(ACT_Controller.load(t)).save(), facts, 'G'))
        return {**out, '!facts': facts}

    def post(I, O):
        for k in O:
            if k[0] == 'G':
                for i in np.ndindex(*O[k].shape):
                    yield f'what has the same name belongs together ({k[1:]})', same(O[k][i], O['W' + k[1:]][i])
    ins = state_inputs(cfg, update='fin')
    ins['h'] = Inp(cfg.batch, cfg.hdt, 'fin')
    return Case(f'{pid}:order:fp', ins, run, post)


def alias_case(pid, kind):
    """The same tensor object in several places."""
    cfg = Cfg('alias', (2,), {'x': L(2), 'y': L(2), 'z': L(2)}, eps=1e-4, dep=1.0)

    def run(a):
        facts = {}
        if kind == 3:
            b = ControllerBuilder.new_builder([2], epsilon=1e-4)
            for n in cfg.accs:
                b = b.define_accumulator_directly(n, a[key('def', 'x', 0)])
            c = b.build()
        else:
            c = controller(cfg, a)
        for n in cfg.accs:
            u = {0: a[key('upd', 'x', 0)], 1: c.accumulators[n], 2: c.save().defaults[n], 3: a[key('upd', n, 0)]}[kind]
            c = c.cache_update(n, u)
        facts['every update is pending'] = bool(c.updates_ready_to_commit)
        c2 = c.iterate_act(a['h'])
        out = outputs(cfg, c2.save(), facts)
        facts['no update is pending after the step'] = not c2.has_cached_updates
        return {**out, '!facts': facts}

    def post(I, O):
        z = const(0, 'f32')
        for a, u, i, b in each(cfg, I, O):
            d = a.replace('acc.', 'def.', 1)
            x = I['def.x.0'][i] if kind == 3 else I[a][i]
            up = {0: I['upd.x.0'][i], 1: x, 2: I[d][i], 3: I[u][i]}[kind]
            p = z if kind == 3 else I['p'][b]
            hh = clip(I['h'][b])
            w = If(hh + p > thr(cfg, I), 1 - p, hh)
            yield f'{ALIAS[kind]}: the update is added with its weight ({a})', req(O[a][i], If(p > thr(cfg, I), x, x + w * up))
            yield f'{ALIAS[kind]}: the default is untouched ({d})', req(O[d][i], I['def.x.0'][i] if kind == 3 else I[d][i])
    ins = state_inputs(cfg, update='fin')
    ins['h'] = Inp(cfg.batch, cfg.hdt, 'fin')
    return Case(f'{pid}:alias{kind}:re', ins, run, post, mode='re')


# arithmetic slack of a refactored formula: a few units in the last place of the terms' magnitude
SLACK = {'f32': 2.0 ** -19, 'f16': 2.0 ** -8, 'bf16': 2.0 ** -5}


def precise_cfgs(tier):
    out = [Cfg('one', (), {'x': L()}), Cfg('eps', (2,), {'x': L()}, eps=1e-4, dep=1.0), Cfg('f16', (2,), {'x': L(dt='f16')}, core='f16', eps=0.25, dep=0.5),
           Cfg('acc32', (1,), {'x': L()}, core='f16', eps=0.25, dep=0.5)]
    if tier != 'quick':
        out += [Cfg('bf16', (2,), {'x': L(dt='bf16')}, core='bf16', eps=0.25, dep=0.5), Cfg('two', (2,), {'x': L(), 'y': [L(1), L()]}), Cfg('acc16', (1,), {'x': L(dt='f16')})]
    return out


def near(got, want, size):
    """Equal up to a few roundings of terms of this size; an overflow says nothing."""
    d = mk('abs', got - want)
    return Or(Not(mk('finite', size)), same(got, want), mk('le', d, const(SLACK[got.dt], got.dt) * size), mk('le', d, const(LO[got.dt], got.dt)))


# C05 ------------------------------------------------------------------------------------
def c05(tier):
    out, mixed = [], mixed_cfgs(tier)
    for cfg in cfgs(tier) + mixed:
        def post(I, O, cfg=cfg):
            t = thr(cfg, I)
            for i in np.ndindex(*cfg.batch):
                p, r, it, h = core(cfg, I, i)
                newly = And(Not(p > t), halts(cfg, I, i))
                yield 'the residual is the mass that was left when the element halted', \
                    req(O['r'][i], If(newly, 1 - p, r))
        out.append(step_case('C05', cfg, post, mode='re', h='fin'))
        if cfg in mixed:
            continue
        def post2(I, O, cfg=cfg):
            t = thr(cfg, I)
            for i in np.ndindex(*cfg.batch):
                p, r, it, h = core(cfg, I, i)
                newly = And(Not(p > t), O['halted'][i])
                yield 'the residual changes only in the step that halts the element', Implies(Not(newly), same(O['r'][i], r))
                yield 'a residual is a probability', And(O['r'][i] >= 0, O['r'][i] <= 1)
        out.append(step_case('C05', cfg, post2))
    for cfg in precise_cfgs(tier):
        def post3(I, O, cfg=cfg):
            for i in np.ndindex(*cfg.batch):
                p, r, it, h = core(cfg, I, i)
                one, w = const(1, cfg.core), dep(cfg, I) * clip(h)
                yield 'the residual is exact', Implies(And(Not(p > thr(cfg, I)), O['halted'][i]), near(O['r'][i], 1 - p, one))
                yield 'the cumulative probability is exact', Implies(And(Not(p > thr(cfg, I)), Not(O['halted'][i])), near(O['p'][i], p + w, one))
        out.append(step_case('C05:precise', cfg, post3, h='unit', update='fin', acc='fin', soft=True, timeout=20))
    return out


# C06 ------------------------------------------------------------------------------------
def c06(tier):
    out = []
    for cfg in cfgs(tier):
        def post(I, O, cfg=cfg):
            t = thr(cfg, I)
            for i in np.ndindex(*cfg.batch):
                p, r, it, h = core(cfg, I, i)
                yield 'a running element counts one more iteration', Implies(Not(p > t), mk('eq', O['it'][i], it + 1))
                yield 'a halted element counts no further', Implies(p > t, mk('eq', O['it'][i], it))
        out.append(step_case('C06', cfg, post, p='unit or nan', h='wild'))
    return out


# C07 ------------------------------------------------------------------------------------
def c07(tier):
    out = []
    sel = ['v2', 'scalar', 'scalar_wide', 'square', 'b22', 'names', 'nested', 'eps01', 'b1', 'deep']
    for cfg in cfgs(tier):
        if tier == 'quick' and cfg.name not in sel:
            continue
        out += [convex_case(cfg), equal_case(cfg)]
    K = 2 if tier == 'quick' else 3
    for cfg in cfgs(tier):
        if cfg.name in (['scalar', 'v2', 'square'] if tier == 'quick' else ['scalar', 'v2', 'square', 'b22', 'eps01', 'nested']):
            out.append(history_case(cfg, K))
    # a K-step history with the default epsilon, one accumulator entry
    out.append(history_case(Cfg('hist_default', (2,), {'x': L(2)}, eps=1e-4, dep=1.0), 3 if tier == 'quick' else 5))
    out += [fresh_case(cfg) for cfg in cfgs(tier) if tier != 'quick' or cfg.name in sel]
    return out


def bounds_inputs(cfg, ins):
    for n, k, l in cfg.leaf_list():
        ins[key('lo', n, k)] = Inp(cfg.shape(l), l.dt, 'fin')
        ins[key('hi', n, k)] = Inp(cfg.shape(l), l.dt, 'fin')


def halted_is_one(cfg, I):
    t = thr(cfg, I)
    for i in np.ndindex(*cfg.batch):
        yield Implies(I['p'][i] > t, mk('eq', I['p'][i], const(1, cfg.core)))


def convex_case(cfg):
    """lo*p <= acc <= hi*p is kept by every step whose update lies in [lo, hi]."""
    def pre(I):
        yield from halted_is_one(cfg, I)
        for a, u, i, b in each(cfg, I, None):
            lo, hi = I[a.replace('acc.', 'lo.', 1)][i], I[a.replace('acc.', 'hi.', 1)][i]
            p = conv(I['p'][b], lo.dt)
            yield lo <= I[u][i]
            yield I[u][i] <= hi
            yield lo * p <= I[a][i]
            yield I[a][i] <= hi * p

    def post(I, O):
        for a, u, i, b in each(cfg, I, O):
            lo, hi = I[a.replace('acc.', 'lo.', 1)][i], I[a.replace('acc.', 'hi.', 1)][i]
            p = conv(O['p'][b], lo.dt)
            yield f'the accumulated weights are nonnegative and sum to the cumulative probability ({a})', And(lo * p <= O[a][i], O[a][i] <= hi * p)
            yield f'once halted, the accumulator is a weighted average of the updates ({a})', \
                Implies(O['halted'][b], And(lo <= O[a][i], O[a][i] <= hi))
    base = step_run(cfg)
    def run(a):
        return base(a)
    ins = state_inputs(cfg, acc='fin', update='fin')
    ins['h'] = Inp(cfg.batch, cfg.hdt, 'fin')
    bounds_inputs(cfg, ins)
    return Case(f'C07:convex-{cfg.name}:re', ins, run, post, step_outs(cfg), pre=pre, mode='re')


def equal_case(cfg):
    """With a constant update c, acc - default == c * p is kept by every step."""
    def pre(I):
        yield from halted_is_one(cfg, I)
        for a, u, i, b in each(cfg, I, None):
            x = I[a][i]
            yield mk('eq', x, I[a.replace('acc.', 'def.', 1)][i] + I[u][i] * conv(I['p'][b], x.dt))

    def post(I, O):
        for a, u, i, b in each(cfg, I, O):
            x = O[a][i]
            yield f'the weights given so far sum to the cumulative probability ({a})', \
                req(x, I[a.replace('acc.', 'def.', 1)][i] + I[u][i] * conv(O['p'][b], x.dt))
    ins = state_inputs(cfg, acc='fin', update='fin')
    ins['h'] = Inp(cfg.batch, cfg.hdt, 'fin')
    return Case(f'C07:total-{cfg.name}:re', ins, step_run(cfg), post, step_outs(cfg), pre=pre, mode='re')


def build(cfg, a):
    b = ControllerBuilder.new_builder(list(cfg.batch), core_dtype=ir.np_of(cfg.core))
    for n in cfg.accs:
        b = b.define_accumulator_directly(n, tree(cfg, a, 'def', n))
    c = b.build()
    s = dataclasses.replace(c.save(), epsilon=eps_of(cfg, a), depression_constant=dep_of(cfg, a))
    return ACT_Controller.load(s)


def leaf_inputs(cfg, prefix, dom):
    return {key(prefix, n, k): Inp(cfg.shape(l), l.dt, dom) for n, k, l in cfg.leaf_list()}


def small_inputs(cfg):
    d = {}
    if cfg.eps is None:
        d['eps'] = Inp((), 'f32', ('eps', cfg.core), weak=True)
    if cfg.dep is None:
        d['dep'] = Inp((), 'f32', 'dep', weak=True)
    return d


def fresh_case(cfg):
    """The base of the induction."""
    def run(a):
        facts = {}
        out = outputs(cfg, build(cfg, a).save(), facts)
        out['!facts'] = facts
        return out

    def post(I, O):
        for i in np.ndindex(*cfg.batch):
            for f in ('p', 'r', 'it'):
                yield f'a fresh controller starts with {f} at zero', mk('eq', O[f][i], const(0, cfg.core))
        for a, u, i, b in each(cfg, I, O):
            d = a.replace('acc.', 'def.', 1)
            yield 'a fresh accumulator is its default', same(O[a][i], I[d][i])
    ins = {**small_inputs(cfg), **leaf_inputs(cfg, 'def', 'fin')}
    return Case(f'C07:fresh-{cfg.name}:fp', ins, run, post, declared(cfg))


def history_case(cfg, K):
    """K whole rounds from a fresh controller against the published algorithm."""
    def run(a):
        facts = {}
        c = build(cfg, a)
        for s in range(K):
            for n in cfg.accs:
                c = c.cache_update(n, tree(cfg, a, f'u{s}', n))
            c = c.iterate_act(a[f'h{s}'])
        out = outputs(cfg, c.save(), facts)
        out['!facts'] = facts
        return out

    def post(I, O):
        t, d = thr(cfg, I), dep(cfg, I)
        zero = const(0, cfg.core)
        W = {}
        for i in np.ndindex(*cfg.batch):
            total, rem, steps, run_ = zero, zero, zero, const(True, 'b')
            ws = []
            for s in range(K):
                g = d * clip(I[f'h{s}'][i])
                stop = total + g > t
                w = If(run_, If(stop, 1 - total, g), zero)
                rem = If(And(run_, stop), 1 - total, rem)
                steps = If(run_, steps + 1, steps)
                total = total + w
                run_ = And(run_, Not(stop))
                ws.append(w)
            W[i] = ws
            yield f'after {K} rounds: cumulative probability', req(O['p'][i], total)
            yield f'after {K} rounds: residual', req(O['r'][i], rem)
            yield f'after {K} rounds: iterations', req(O['it'][i], steps)
        for n, k, l in cfg.leaf_list():
            for i, b in idx(cfg, cfg.shape(l)):
                x = I[key('def', n, k)][i]
                for s in range(K):
                    x = x + conv(W[b][s], l.dt) * I[key(f'u{s}', n, k)][i]
                yield f'after {K} rounds: the accumulator is the weighted sum of the updates', req(O[key('acc', n, k)][i], x)
    ins = {**small_inputs(cfg), **leaf_inputs(cfg, 'def', 'fin')}
    for s in range(K):
        ins.update(leaf_inputs(cfg, f'u{s}', 'fin'))
        ins[f'h{s}'] = Inp(cfg.batch, cfg.core, 'fin')
    return Case(f'C07:history{K}-{cfg.name}:re', ins, run, post, declared(cfg), mode='re', timeout=120)


# C08 ------------------------------------------------------------------------------------
def c08(tier):
    out = []
    for cfg in cfgs(tier):
        if int(np.prod(cfg.batch)) < 2:
            continue
        for op in ('iterate', 'reset', 'halted_only', 'unhalted_only', 'mask'):
            out += isolation_case(cfg, op)
    return out


def isolation_case(cfg, op):
    """Element b of every result is unchanged when all other batch elements are replaced by anything."""
    ins = state_inputs(cfg, acc='any', default='any', update='any' if op == 'iterate' else None, p='any', r='any', it='any')
    if op == 'iterate':
        ins['h'] = Inp(cfg.batch, cfg.hdt, 'any')
    if op == 'mask':
        ins['m'] = Inp(cfg.batch, 'b', 'any')
    names = list(ins)
    two = dict(ins)
    for n in names:
        if ins[n].shape[:len(cfg.batch)] == cfg.batch and not ins[n].weak:
            two['2' + n] = Inp(ins[n].shape, ins[n].dt, 'any')
    cells = list(np.ndindex(*cfg.batch))
    cells = [cells[0], cells[-1]]

    def one(a):
        c = controller(cfg, a)
        if op == 'iterate':
            for n in cfg.accs:
                c = c.cache_update(n, tree(cfg, a, 'upd', n))
            s = c.iterate_act(a['h']).save()
        elif op == 'reset':
            s = c.reset_batches().save()
        elif op == 'mask':
            s = c.make_viewer().mask_data(a['m']).save()
        else:
            s = getattr(c.make_viewer(), op)().save()
        return outputs(cfg, s)

    def run(a):
        out = {f'A{k}': v for k, v in one({n: a[n] for n in names}).items()}
        out.update({f'B{k}': v for k, v in one({n: a.get('2' + n, a[n]) for n in names}).items()})
        return out

    cases = []
    for cell in cells:
        def pairs(cell=cell):
            for n in names:
                if '2' + n in two:
                    for i in np.ndindex(*ins[n].shape):
                        if i[:len(cfg.batch)] == cell:
                            yield n, i

        def pre(I, pairs=pairs):
            for n, i in pairs():
                yield ir.ident(I[n][i], I['2' + n][i])

        def fix(envd, pairs=pairs):
            for n, i in pairs():
                q = ''.join(f'_{j}' for j in i)
                envd['2' + n + q] = envd[n + q]

        def post(I, O, cell=cell):
            for k in [k[1:] for k in O if k.startswith('A')]:
                A, B = O['A' + k], O['B' + k]
                for i in np.ndindex(*A.shape):
                    if i[:len(cfg.batch)] == cell:
                        yield f'{op}: a batch element does not depend on the others ({k})', same(A[i], B[i])
        cases.append(Case(f'C08:{op}-{cfg.name}-{cell}:fp', two, run, post, pre=pre, fix=fix))
    return cases


# C09 ------------------------------------------------------------------------------------
def c09(tier):
    out = [order_case('C09', 'reset'), mode_case('C09', {'reset': lambda s: ACT_Controller.load(s).reset_batches().save()})]
    for cfg in cfgs(tier):
        def run(a, cfg=cfg):
            facts = {}
            c = controller(cfg, a)
            c2 = c.reset_batches()
            s = c2.save()
            out = outputs(cfg, s, facts)
            facts['no update is pending after a reset'] = all(v is None for v in s.updates.values())
            out['eps'] = jnp.asarray(s.epsilon, jnp.float32)
            out['dep'] = jnp.asarray(s.depression_constant, jnp.float32)
            out['halted'] = c2.halted_batches
            out['!facts'] = facts
            return out

        def post(I, O, cfg=cfg):
            t = thr(cfg, I)
            z = const(0, cfg.core)
            for i in np.ndindex(*cfg.batch):
                was = I['p'][i] > t
                for f in ('p', 'r', 'it'):
                    yield f'reset zeroes {f} of a halted element', Implies(was, mk('eq', O[f][i], z))
                    yield f'reset leaves {f} of a running element', Implies(Not(was), same(O[f][i], I[f][i]))
                yield 'no element is halted after a reset', Not(O['halted'][i])
            for a, u, i, b in each(cfg, I, O):
                was = I['p'][b] > t
                d = a.replace('acc.', 'def.', 1)
                yield f'reset restores the default of a halted element ({a})', Implies(was, same(O[a][i], I[d][i]))
                yield f'reset leaves the accumulator of a running element ({a})', Implies(Not(was), same(O[a][i], I[a][i]))
                yield f'reset keeps the defaults ({d})', same(O[d][i], I[d][i])
            if cfg.eps is None:
                yield 'reset keeps epsilon', same(O['eps'].reshape(-1)[0], I['eps'].reshape(-1)[0])
            if cfg.dep is None:
                yield 'reset keeps the depression constant', same(O['dep'].reshape(-1)[0], I['dep'].reshape(-1)[0])
        outs = declared(cfg)
        outs.update(eps=Out((), 'f32'), dep=Out((), 'f32'), halted=Out(cfg.batch, 'b'))
        out.append(Case(f'C09:{cfg.name}:fp', state_inputs(cfg, acc='any', default='any', p='unit or nan'), run, post, outs))
    return out
