"""Symbolic execution of one use of the library, the verdict, and the replay.

A Case runs the real code on abstract inputs.  JAX traces it to a jaxpr (Python-level
branches on traced values are forked: every feasible path becomes a Path), the jaxpr
becomes terms, the specification becomes goals over the same terms, and each goal is
decided by SMT over all input values of the case.  A counterexample is a violation only
after the real code, run on it eagerly or under jit, breaks the same goal.
"""
import contextlib
import json
import os
import sys
import threading
import time
import traceback
import numpy as np
from . import env
import jax
from jax import core, numpy as jnp
from jax.experimental import checkify, enable_x64
from . import ir, jaxpr as jx, solve, pysym
from .ir import mk, const, var, And, Or, Not, Implies, Unsupported, is_float, np_of

MAXPATHS = 64
# magnitudes: zero or [LO, HI]; subnormals are excluded (XLA's CPU backend flushes them)
LO = {'f32': 2.0 ** -40, 'bf16': 2.0 ** -40, 'f16': 2.0 ** -6, 'f64': 2.0 ** -40}
HI = {'f32': 2.0 ** 40, 'bf16': 2.0 ** 40, 'f16': 2.0 ** 6, 'f64': 2.0 ** 40}
INTMAX = {'f32': 2 ** 20, 'f16': 1000, 'bf16': 100, 'f64': 2 ** 20}
EPSNEG = {'f32': 2.0 ** -24, 'f16': 2.0 ** -11, 'bf16': 2.0 ** -8, 'f64': 2.0 ** -53}


class Inp:
    def __init__(self, shape, dt, dom, weak=False, py=False):
        # weak: an array when traced, a Python float when run; py: a symbolic Python scalar
        self.shape, self.dt, self.dom, self.weak, self.py = tuple(shape), dt, dom, weak, py


def dom_terms(x, dom, mode):
    """The precondition on one scalar input."""
    dt = x.dt
    c = lambda v: const(v, dt)
    nz = lambda: [] if mode == 're' else [Or(mk('eq', x, c(0)), mk('le', c(LO[dt]), mk('abs', x)))]
    if dom == 'any' or dt == 'b':
        return []
    if dom == 'unit':
        return [mk('le', c(0), x), mk('le', x, c(1))] + nz()
    if dom == 'unit or nan':
        return dom_terms(x, 'unit', mode) if mode == 're' else [Or(ir.isnan(x), And(dom_terms(x, 'unit', mode)))]
    if dom == 'open':                       # strictly inside (0, 1)
        return [mk('lt', c(0), x), mk('lt', x, c(1))] + nz()
    if dom == 'off01':                      # any number, but neither zero nor one
        return [Or(mk('lt', x, c(0)), mk('lt', c(0), x)), Or(mk('lt', x, c(1)), mk('lt', c(1), x))] + dom_terms(x, 'fin', mode)
    if dom == 'number':                     # anything but NaN
        return nz() + ([] if mode == 're' else [Not(ir.isnan(x))])
    if dom == 'wild':                       # infinite and NaN too, but not subnormal
        return [Or(ir.isnan(x), *nz())]
    if dom == 'fin':
        return [] if mode == 're' else nz() + [mk('le', mk('abs', x), c(HI[dt]))]
    if dom == 'dep':
        return [mk('le', c(0), x)] + ([] if mode == 're' else nz() + [mk('le', x, c(1024))])
    if dom == 'eps':
        return [mk('lt', x, c(1)), mk('lt', c(0), x) if mode == 're' else mk('le', c(EPSNEG[dt]), x)]
    if isinstance(dom, tuple) and dom[0] == 'eps':      # epsilon for a lower precision core
        return [mk('lt', x, c(1)), mk('lt', c(0), x) if mode == 're' else mk('le', c(EPSNEG[dom[1]]), x)]
    if dom == 'nat':
        if mode == 're':
            return [mk('le', c(0), x)]
        return [mk('le', c(0), x), mk('le', x, c(INTMAX[dt])), mk('eq', x, mk('floor', x))]
    if isinstance(dom, tuple) and dom[0] == 'range':
        return [mk('le', c(dom[1]), x), mk('le', x, c(dom[2]))]
    raise ValueError(dom)


def dom_sample(rng, dt, dom):
    if dt == 'b':
        return bool(rng.integers(2))
    q = lambda lo, hi: rng.integers(int(lo * 32), int(hi * 32) + 1) / 32
    if dom in ('unit', 'unit or nan'):
        return q(0, 1) if rng.random() < .8 else float(rng.integers(2))
    if dom == 'open':
        return (rng.integers(31) + 1) / 32
    if dom in ('fin', 'any', 'number', 'wild'):
        return q(-3, 3)
    if dom == 'off01':
        return (rng.integers(-96, 96) + .5) / 32
    if dom == 'dep':
        return q(0, 2)
    if dom == 'eps' or (isinstance(dom, tuple) and dom[0] == 'eps'):
        return (rng.integers(15) + 1) / 16
    if dom == 'nat':
        return float(rng.integers(0, 20))
    if isinstance(dom, tuple) and dom[0] == 'range':
        if is_float(dt):
            return q(dom[1], dom[2])
        return int(rng.integers(dom[1], dom[2] + 1))
    raise ValueError(dom)


class Out:
    """Declared output: its shape and dtype are part of the specification."""

    def __init__(self, shape, dt):
        self.shape, self.dt = tuple(shape), dt


class Case:
    def __init__(self, name, inputs, run, post, outs=None, pre=None, mode='fp', raises=None, unroll=6,
                 timeout=90, jit_replay=True, dyadic=64, fix=None, maxpaths=MAXPATHS, tol=None, note='', structural=False, loops=False,
                 soft=False, traces=False, smaller=None, x64=None):
        self.x64 = any(i.dt == 'f64' and not i.py for i in inputs.values()) if x64 is None else x64     # run with 64 bit tensors
        self.smaller = smaller  # inputs to fall back to when the code takes too many paths on the full ones
        self.traces = traces or loops   # the case itself jits or loops: failing to trace is a failure of the code
        self.soft = soft        # an undecided goal of this case is noted, not an answer withheld (see DESIGN)
        self.loops = loops      # the real code runs a loop: bound the time a replay may take
        self.structural = structural
        self.maxpaths, self.tol = maxpaths, tol
        self.fix = fix
        self.name, self.inputs, self.run, self.post = name, inputs, run, post
        self.outs, self.pre, self.mode, self.raises = outs, pre, mode, raises
        self.unroll, self.timeout, self.dyadic, self.note = unroll, timeout, dyadic, note
        self.jit_replay = jit_replay and not any(i.py for i in inputs.values())


def precision(case):
    """Cases over 64 bit tensors run with jax's 64 bit mode."""
    return enable_x64(True) if case.x64 else contextlib.nullcontext()


class Path:
    def __init__(self, cond, exc, outs, facts, obligations, prims):
        self.cond, self.exc, self.outs, self.facts = cond, exc, outs, facts
        self.obligations, self.prims = obligations, prims


JAX_LIMITS = ('ConcretizationTypeError', 'TracerArrayConversionError', 'TracerIntegerConversionError',
              'TracerBoolConversionError', 'UnexpectedTracerError', 'NonConcreteBooleanIndexError', 'Unsupported')


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def limits(case, e, jit=False):
    """Not an exception of the code under test but of the way it is run here."""
    names = {type(c).__name__ for c in chain(e)} & set(JAX_LIMITS)
    return bool(names) and (jit or not case.traces or 'Unsupported' in names)


class Forks:
    def __init__(self, script):
        self.script, self.taken, self.conds = script, [], []
        self.main = None
        self.known, self.memo = {}, {}

    def decide(self, tracer):
        if isinstance(tracer, ir.N):
            if self.known:
                t = ir.substitute(tracer, self.known)
                if t.op == 'const':
                    return bool(t.aux)
            if tracer.id in self.memo:
                return self.memo[tracer.id]
            d = self.branch(tracer)
            self.memo[tracer.id] = d
            if d and tracer.op == 'same':
                for x, c in (tracer.args, tracer.args[::-1]):
                    if x.op == 'var' and c.op == 'const':
                        self.known[x.aux] = c
            return d
        return self.branch(tracer)

    def branch(self, tracer):
        k = len(self.taken)
        if k > 60:
            raise Unsupported('too many branches on one path')
        d = self.script[k] if k < len(self.script) else True
        self.taken.append(d)
        self.conds.append(tracer)
        return d


@contextlib.contextmanager
def forking(forks):
    """bool(tracer) and checkify's Error.throw become symbolic branches of the outermost trace."""
    old_bool, old_throw, old_get = core.Tracer.__bool__, checkify.Error.throw, checkify.Error.get
    old_exc, old_check = checkify.Error.get_exception, checkify.check_error

    def fbool(self):
        if np.shape(self) != () and np.size(self) != 1:
            return old_bool(self)
        main = getattr(getattr(self, '_trace', None), 'main', None)
        if main is forks.main:
            return forks.decide(self)
        return old_bool(self)

    def fexc(self):
        return checkify.JaxRuntimeError('a checkify check failed') if fget(self) else None

    def inner(self):
        """Thrown inside a nested trace: it is left for the checkify around that trace."""
        preds = [jnp.any(p) for p in self._pred.values()]
        return any(isinstance(p, core.Tracer) and p._trace.main is not forks.main for p in preds)

    def fthrow(self):
        if inner(self):
            return old_throw(self)
        for pred in self._pred.values():
            if bool(jnp.any(pred)):
                raise checkify.JaxRuntimeError('a checkify check failed')

    def fget(self):
        for pred in self._pred.values():
            if bool(jnp.any(pred)):
                return 'a checkify check failed'
        return None

    def fcheck(error):
        if not isinstance(error, checkify.Error):
            return old_check(error)
        return fthrow(error)

    def swap(old, new):
        """Wherever the code under test may have got check_error from."""
        for n, m in list(sys.modules.items()):
            if n.startswith('src.') or n in ('jax.experimental.checkify', 'jax._src.checkify'):
                for k, v in list(vars(m).items()):
                    if v is old:
                        setattr(m, k, new)

    pysym.CURRENT.append(forks)
    core.Tracer.__bool__ = fbool
    swap(old_check, fcheck)
    checkify.Error.throw = fthrow
    checkify.Error.get, checkify.Error.get_exception = fget, fexc
    try:
        yield
    finally:
        pysym.CURRENT.pop()
        core.Tracer.__bool__, checkify.Error.throw, checkify.Error.get = old_bool, old_throw, old_get
        checkify.Error.get_exception = old_exc
        swap(fcheck, old_check)


def py_term(v):
    if isinstance(v, pysym.Sym):
        return v.t
    return const(v, 'b' if isinstance(v, bool) else 'i64' if isinstance(v, int) else 'f64')


def split_out(out):
    facts = dict(out.pop('!facts', {})) if '!facts' in out else {}
    return out, facts


def check_outs(case, out, facts):
    """Names, shapes and dtypes of the results."""
    if case.outs is None:
        return
    spec = case.outs() if callable(case.outs) else case.outs
    for k, o in spec.items():
        if k not in out:
            facts[f'result {k} exists'] = False
            continue
        v = out[k]
        if isinstance(v, (pysym.Sym, bool, int, float)):
            facts[f'result {k} has shape {o.shape}'] = o.shape == ()
            continue
        if not hasattr(v, 'shape'):
            v = jnp.asarray(v)
        facts[f'result {k} has shape {o.shape}'] = tuple(v.shape) == o.shape
        if o.dt is not None:
            facts[f'result {k} has dtype {o.dt}'] = ir._TAG.get(np.dtype(v.dtype)) == o.dt
    for k in out:
        if k not in spec:
            facts[f'result {k} is not expected'] = False


def bad_fact(facts):
    return [k for k, v in facts.items() if not v]


def symbolic(case):
    """All paths of the case, as terms over its inputs."""
    with precision(case):
        return symbolic_(case)


def symbolic_(case):
    I = {n: jx.sym(n, i.shape, i.dt) for n, i in case.inputs.items()}
    names = list(case.inputs)
    arr_names = [n for n in names if not case.inputs[n].py]
    avals = [jax.ShapeDtypeStruct(case.inputs[n].shape, np_of(case.inputs[n].dt)) for n in arr_names]
    paths, work = [], [[]]
    while work:
        script = work.pop()
        if len(paths) >= case.maxpaths:
            raise Unsupported('too many paths')
        forks = Forks(script)
        info = {}

        def traced(*arrs):
            info.clear()
            tr = [a for a in arrs if isinstance(a, core.Tracer)]
            forks.main = tr[0]._trace.main if tr else None
            a = {}
            for n, x in zip(arr_names, arrs):
                a[n] = jax.lax.convert_element_type_p.bind(
                    x, new_dtype=np.dtype(np_of(case.inputs[n].dt)), weak_type=True) if case.inputs[n].weak else x
            for n in names:
                if case.inputs[n].py:
                    i = case.inputs[n]
                    a[n] = pysym.Sym(I[n].reshape(-1)[0], *(i.dom[2], i.dom[1]) if isinstance(i.dom, tuple) and i.dom[0] == 'range' else ())
            try:
                out, facts = split_out(dict(case.run(a)))
                check_outs(case, out, facts)
                info['facts'], info['exc'] = facts, None
                info['terms'] = {k: py_term(v) for k, v in out.items() if isinstance(v, (pysym.Sym, bool, int, float))}
                keys = sorted(k for k in out if k not in info['terms'])
                info['keys'] = keys
                vals = [jnp.asarray(out[k]) for k in keys]
            except Exception as e:
                if limits(case, e):
                    raise
                info['facts'], info['exc'], info['keys'], info['terms'], vals = {}, e, [], {}, []
            return [c for c in forks.conds if not isinstance(c, ir.N)], vals

        with forking(forks):
            try:
                cj = jax.make_jaxpr(traced)(*avals)
            except Unsupported:
                raise
            except Exception as e:
                raise Unsupported(f'{case.name}: not traceable: {type(e).__name__}: {str(e)[:300]}')
        for k in range(len(script), len(forks.taken)):
            work.append(forks.taken[:k] + [False])
        ctx = jx.Ctx(case.unroll)
        res = jx.run_closed(cj, [I[n] for n in arr_names], ctx)
        for v in res:
            if isinstance(v, jx.Poison):
                raise Unsupported(v.why)
        nc = sum(1 for c in forks.conds if not isinstance(c, ir.N))
        traced_conds = iter(res[:nc])
        cond = const(True, 'b')
        for c, d in zip(forks.conds, forks.taken):
            s = c if isinstance(c, ir.N) else next(traced_conds).reshape(-1)[0]
            if s.dt != 'b':
                s = mk('conv', s, dt='b')
            cond = And(cond, s if d else Not(s))
        if cond.op == 'const' and not bool(cond.aux):
            continue
        outs = dict(zip(info['keys'], res[nc:]))
        for k, t in info['terms'].items():
            outs[k] = np.array(t, dtype=object).reshape(())
        paths.append(Path(cond, info['exc'], outs, info['facts'], ctx.obligations, ctx.prims))
    return I, paths


def domain(case, I):
    pre = []
    for n, i in case.inputs.items():
        for x in I[n].reshape(-1):
            pre += dom_terms(x, i.dom, case.mode)
    if case.pre:
        for t in case.pre(I):
            pre.append(t)
    return [p for p in pre if not (p.op == 'const' and bool(p.aux))]


def aliases(pre):
    """Inputs the preconditions make bit-identical to another input: that input's variable stands for both."""
    m = {}
    for t in pre:
        if t.op == 'ident' and all(a.op == 'var' for a in t.args):
            a, b = t.args
            if b.aux not in m:
                m[b.aux] = a
    return {k: v for k, v in m.items() if v.aux not in m}


_vs = {}


def varset(t):
    r = _vs.get(t.id)
    if r is None:
        r = _vs[t.id] = frozenset(v.aux for v in ir.variables([t]))
    return r


def cone(pre, goal_parts):
    """The preconditions that share a variable, transitively, with the goal."""
    vs = set()
    for g in goal_parts:
        vs |= varset(g)
    rest, keep, again = list(pre), [], True
    while again:
        again, nxt = False, []
        for p in rest:
            if varset(p) & vs:
                keep.append(p)
                if not varset(p) <= vs:
                    vs |= varset(p)
                    again = True
            else:
                nxt.append(p)
        rest = nxt
    return keep


def path_goals(case, I, path):
    """[(label, term)] that must hold whenever the path condition does."""
    exp = case.raises(I) if case.raises else const(False, 'b')
    if path.exc is not None:
        return [(f'no exception here ({type(path.exc).__name__}: {str(path.exc).strip()[:80]!r})', exp)]
    out = [('an invalid request is refused', Not(exp))] if case.raises else []
    bad = bad_fact(path.facts)
    for b in bad:
        out.append((b, exp if case.raises else const(False, 'b')))
    if not bad:
        for label, t in case.post(I, path.outs):
            out.append((label, Or(exp, t) if case.raises else t))
    out += [(l, Or(exp, t)) for l, t in path.obligations]
    return out


# ------------------------------------------------------------------ concrete runs
def to_arrays(case, vals):
    a = {}
    for n, i in case.inputs.items():
        x = np.empty(i.shape, dtype=np_of(i.dt))
        for k in np.ndindex(*i.shape):
            x[k] = np_of(i.dt)(vals[n + ''.join(f'_{j}' for j in k)])
        a[n] = x.reshape(-1)[0].item() if i.py else float(x) if (i.weak and i.shape == () and is_float(i.dt)) else jnp.asarray(x)
    return a


class Hang(Exception):
    """The real code did not return."""


HUNG = []
RUN_LIMIT = 45


def concrete(case, vals, jit=False):
    if not case.loops:
        with precision(case):
            return concrete_(case, vals, jit)
    box = {}

    def work():
        try:
            with precision(case):
                box['r'] = concrete_(case, vals, jit)
        except BaseException as e:
            box['e'] = e
    t = threading.Thread(target=work, daemon=True)
    t.start()
    t.join(RUN_LIMIT)
    if t.is_alive():
        HUNG.append(case.name)
        raise Hang()
    if 'e' in box:
        raise box['e']
    return box['r']


def concrete_(case, vals, jit=False):
    """Run the real code; the failing goals."""
    a = to_arrays(case, vals)
    facts, exc, out = {}, None, {}
    try:
        if jit:
            box = {}

            def f(a):
                o, box['facts'] = split_out(dict(case.run(a)))
                check_outs(case, o, box['facts'])
                return o
            out = jax.jit(f)(a)
            facts = box['facts']
        else:
            out, facts = split_out(dict(case.run(a)))
            check_outs(case, out, facts)
    except Exception as e:
        if limits(case, e, jit):
            return None, None, {}
        exc = e
    I = {n: jx.to_terms(np.asarray(vals_arr(case, n, vals))) for n in case.inputs}
    O = {k: (np.array(py_term(v), dtype=object).reshape(()) if isinstance(v, (bool, int, float)) else
             jx.to_terms(v if hasattr(v, 'dtype') else jnp.asarray(v))) for k, v in out.items()}
    p = Path(const(True, 'b'), exc, O, facts, [], 0)
    return p, I, out


def vals_arr(case, n, vals):
    i = case.inputs[n]
    x = np.empty(i.shape, dtype=np_of(i.dt))
    for k in np.ndindex(*i.shape):
        x[k] = np_of(i.dt)(vals[n + ''.join(f'_{j}' for j in k)])
    return x


def failing(case, vals, jit=False):
    """Labels of the goals that the real code breaks on this input; None when it could not be run that way."""
    # the goals are built over variables (so that rounding tolerance applies), then evaluated
    try:
        p, _, out = concrete(case, vals, jit)
    except Hang:
        return [f'the real code returns within {RUN_LIMIT} s']
    if p is None:
        return None
    I = {n: jx.sym(n, i.shape, i.dt) for n, i in case.inputs.items()}
    envd = {}
    for n in case.inputs:
        x = vals_arr(case, n, vals)
        for k in np.ndindex(*x.shape):
            envd[n + ''.join(f'_{j}' for j in k)] = x[k]
    O = {}
    for k, t in p.outs.items():
        nm = '!out_' + k
        dt = t.reshape(-1)[0].dt if t.size else 'f32'
        O[k] = jx.sym(nm, t.shape, dt)
        for j in np.ndindex(*t.shape):
            envd[nm + ''.join(f'_{q}' for q in j)] = t[j].aux
    p2 = Path(p.cond, p.exc, O, p.facts, [], 0)
    bad = []
    tol = case.tol if case.tol is not None else (1e-4 if case.mode == 're' else 0)
    for label, g in path_goals(case, I, p2):
        try:
            ok = ir.evaluate(g, envd, 're' if case.mode == 're' else 'fp', tol)
        except (OverflowError, ZeroDivisionError):
            ok = False
        if not ok:
            bad.append(label)
    return bad


def sample(case, pre, I, rng, tries=40):
    for _ in range(tries):
        envd = {}
        for n, i in case.inputs.items():
            for k in np.ndindex(*i.shape):
                envd[n + ''.join(f'_{j}' for j in k)] = np_of(i.dt)(dom_sample(rng, i.dt, i.dom))
        if case.fix:
            case.fix(envd)
        if all(ir.evaluate(p, envd, 'fp') for p in pre):
            return envd
    return None


def solver_sample(case, pre):
    v, m = solve.Query(pre or [const(True, 'b')], case.mode, case.timeout, dyadic_extra(case)).decide()
    if v != 'sat':
        return None
    return m


def fill(case, model, base):
    vals = dict(base)
    for k, v in (model or {}).items():
        vals[k] = v
    for n, i in case.inputs.items():
        for k in np.ndindex(*i.shape):
            nm = n + ''.join(f'_{j}' for j in k)
            if nm not in vals:
                vals[nm] = np_of(i.dt)(0)
            elif is_float(i.dt):
                vals[nm] = np_of(i.dt)(float(vals[nm]))
            elif i.dt != 'b':
                vals[nm] = np_of(i.dt)(int(vals[nm]))
    if case.fix:
        case.fix(vals)
    return vals


def dyadic_extra(case, small=None):
    if case.mode != 're':
        return ()

    def f(_, vs):
        lines = []
        for s, n in vs:
            if is_float(n.dt):
                lines += [f'(declare-const k_{s} Int)', f'(assert (= {s} (/ (to_real k_{s}) {case.dyadic}.0)))',
                          f'(assert (and (<= k_{s} 4096) (>= k_{s} (- 4096))))']
        return lines
    return (f,)


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations, self.inconclusive = [], []
        self.cases, self.goals, self.paths, self.validated, self.witnesses = 0, 0, 0, 0, 0
        self.prims = 0
        self.groups = {}
        self.t0 = time.time()
        self.samples = []
        self.replays = 0
        self.discharged = 0
        self.notes = []


class Job:
    __slots__ = ('case', 'I', 'pre', 'path', 'label', 'goal', 'query')


def run_cases(rep, cases, validate=2):
    """Decide every goal of every case; fills the report."""
    rng = np.random.default_rng(env.SEED)
    jobs, bases = [], {}
    for case in cases:
        rep.cases += 1
        g0 = rep.groups.setdefault(case.name.split(':')[0], {'cases': 0, 'goals': 0})
        g0['cases'] += 1
        try:
            try:
                I, paths = symbolic(case)
            except Unsupported as e:
                if case.smaller is None or 'too many paths' not in str(e):
                    raise
                case.inputs, case.maxpaths = {**case.inputs, **case.smaller}, 2000
                print(f'NOTE {case.name}: too many paths, decided for smaller inputs')
                I, paths = symbolic(case)
            pre = domain(case, I)
            rep.paths += len(paths)
            rep.prims += sum(p.prims for p in paths)
            base = sample(case, pre, I, rng)
            if base is None:
                base = fill(case, solver_sample(case, pre) or {}, {})
                if not all(ir.evaluate(p, base, 'fp') for p in pre):
                    if case.mode == 'fp':
                        raise Unsupported('no witness for the preconditions (vacuous case?)')
            rep.witnesses += 1
            bases[id(case)] = base
            alias = aliases(pre) if case.fix and rep.tier == 'quick' else {}
            sub = (lambda t: ir.substitute(t, alias)) if alias else (lambda t: t)
            qpre = [t for t in map(sub, pre) if not (t.op == 'const' and bool(t.aux))]
            for k in range(validate):
                vals = base if k == 0 else (sample(case, pre, I, rng) or base)
                msg = cross_check(case, I, paths, vals)
                rep.validated += 1
                if msg:
                    differs(rep, case, vals)
                    raise Unsupported(f'translation mismatch: {msg}')
            for path in paths:
                for label, goal in path_goals(case, I, path):
                    rep.goals += 1
                    g0['goals'] += 1
                    j = Job()
                    j.case, j.I, j.pre, j.path, j.label, j.goal = case, I, pre, path, label, goal
                    neg = [sub(path.cond), sub(Not(goal))]
                    neg = [t for t in neg if not (t.op == 'const' and bool(t.aux))]
                    j.query = solve.Query(cone(qpre, neg) + neg, case.mode, case.timeout, structural=case.structural, hint=base)
                    jobs.append(j)
        except Unsupported as e:
            # the symbolic route is closed; a plain run on valid inputs can still show a crash
            rep.inconclusive.append((case.name, str(e)))
        except Exception as e:
            rep.inconclusive.append((case.name, f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}'))
    done = set()

    def examine(verdicts):
        """Replay the counterexamples; True when a violation is confirmed."""
        for j, (v, m) in zip(jobs, verdicts):
            key = (j.case.name, j.label)
            if v == 'sat' and key not in done and len(rep.violations) < 8 and not (HUNG and rep.violations):
                done.add(key)
                confirm(rep, j, m, bases[id(j.case)])
        return bool(rep.violations)

    verdicts = solve.decide_all([j.query for j in jobs], examine)
    examine(verdicts)
    for j, (v, m) in zip(jobs, verdicts):
        if v == 'unknown':
            (rep.notes if j.case.soft else rep.inconclusive).append((j.case.name, f'{j.label}: the solvers gave no answer'))
        rep.discharged += v == 'unsat'
    return rep


def differs(rep, case, vals):
    """The code does something else when it runs than when it is traced: if that breaks the property, it is a violation."""
    if len(rep.violations) >= 8:
        return
    for jit in ((False, True) if case.jit_replay else (False,)):
        rep.replays += 1
        bad = failing(case, vals, jit)
        if bad:
            rep.violations.append(dict(case=case.name, goal=bad[0], broken=bad, jit=jit, inputs={k: encode(v) for k, v in vals.items()}))
            return


def cross_check(case, I, paths, vals):
    """The terms, evaluated, against the real code run on the same input."""
    if HUNG:
        return None
    try:
        p, _, out = concrete(case, vals)
    except Hang:        # the goal that the loop ends is for the solver to decide
        return None
    if p is None:
        return 'the real code cannot be run on a concrete input'
    live = [q for q in paths if bool(ir.evaluate(q.cond, vals, 'fp'))]
    if len(live) != 1:
        return f'{len(live)} paths for one input'
    q = live[0]
    if (q.exc is None) != (p.exc is None):
        return f'symbolic outcome {q.exc!r:.200}, real outcome {p.exc!r:.200}'
    if q.exc is not None:
        return None
    if set(q.outs) != set(p.outs):
        return 'different results'
    for k in q.outs:
        a, b = q.outs[k], p.outs[k]
        if a.shape != b.shape:
            return f'{k}: shape {a.shape} / {b.shape}'
        for t, s in zip(a.reshape(-1), b.reshape(-1)):
            if any(n.op == 'uf' for n in ir.topo([t])):
                continue
            x = ir.evaluate(t, vals, 'fp')
            tol = max({'f16': 2e-2, 'bf16': 5e-2}.get(d, 1e-4) for d in {t.dt, *(i.dt for i in case.inputs.values())})
            if not ir._close(x, s.aux, tol):
                return f'{k}: {x} / {s.aux} for {vals}'
    return None


def confirm(rep, j, model, base):
    """Replay the counterexample on the real code."""
    case = j.case
    tries = []
    if case.mode == 're':
        # first look for a counterexample whose float arithmetic is exact
        neg = [j.path.cond, Not(j.goal)]
        q = solve.Query(cone(j.pre, neg) + neg, 're', case.timeout, dyadic_extra(case))
        v, m = q.decide()
        if v == 'sat' and m is not None:
            tries.append(m)
    if model is not None:
        tries.append(model)
    for m in tries:
        vals = fill(case, m, base)
        for jit in ((False, True) if case.jit_replay else (False,)):
            rep.replays += 1
            bad = failing(case, vals, jit)
            if bad:
                rep.violations.append(dict(case=case.name, goal=j.label, broken=bad, jit=jit,
                                           inputs={k: encode(v) for k, v in vals.items()}))
                return
    (rep.notes if case.soft else rep.inconclusive).append((case.name, f'{j.label}: the counterexample does not reproduce on the real code: '
                             + str({k: str(v) for k, v in (tries[-1] if tries else {}).items()})[:600]))


def encode(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    f = float(v)
    return repr(f)


def decode(case, d):
    """The inputs of a replay file."""
    vals = {}
    for n, i in case.inputs.items():
        for k in np.ndindex(*i.shape):
            nm = n + ''.join(f'_{j}' for j in k)
            v = d[nm]
            vals[nm] = np_of(i.dt)(v if isinstance(v, bool) else float(v) if is_float(i.dt) else int(float(v)))
    return vals
