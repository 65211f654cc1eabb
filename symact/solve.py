"""Terms -> SMT-LIB 2, the solver subprocesses, and model read-back."""
import concurrent.futures as cf
import os
import re
import subprocess
import threading
import time
from fractions import Fraction
import numpy as np
from . import ir
from .ir import topo, is_float, is_int, FPBITS, np_of

STATS = {'queries': 0, 'solver_s': 0.0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'cached': 0, 'trivial': 0, 'max_s': 0.0}
_lock = threading.Lock()
INTBITS = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64}


def sort_of(dt, mode):
    if dt == 'b':
        return 'Bool'
    if is_float(dt):
        return 'Real' if mode == 're' else '(_ FloatingPoint %d %d)' % FPBITS[dt]
    return 'Int' if mode == 're' else f'(_ BitVec {INTBITS[dt]})'


def lit(v, dt, mode):
    if dt == 'b':
        return 'true' if bool(v) else 'false'
    if is_int(dt):
        v = int(v)
        if mode == 're':
            return str(v) if v >= 0 else f'(- {-v})'
        return f'(_ bv{v % (1 << INTBITS[dt])} {INTBITS[dt]})'
    if mode == 're':
        f = float(v)
        if f != f or f in (float('inf'), float('-inf')):
            raise ir.Unsupported('non-finite constant in the real encoding')
        q = Fraction(f)
        s = f'(/ {abs(q.numerator)}.0 {q.denominator}.0)'
        return s if q >= 0 else f'(- {s})'
    e, m = FPBITS[dt]
    f = float(v)
    if f != f:
        return f'(_ NaN {e} {m})'
    bits = int(np.asarray(np_of(dt)(v)).view({2: np.uint16, 4: np.uint32, 8: np.uint64}[np.dtype(np_of(dt)).itemsize]))
    s = bits >> (e + m - 1)
    ex = (bits >> (m - 1)) & ((1 << e) - 1)
    mn = bits & ((1 << (m - 1)) - 1)
    return f'(fp #b{s} #b{ex:0{e}b} #b{mn:0{m - 1}b})'


RM = 'roundNearestTiesToEven'


def expr(n, a, mode):
    op, dt = n.op, n.dt
    d0 = n.args[0].dt if n.args else None
    if op in ('and', 'or', 'not', 'ite', 'xor'):
        return f"({op} {' '.join(a)})"
    if op in ('same', 'ident'):
        if op == 'same' and mode == 'fp' and is_float(d0):
            return f'(or (= {a[0]} {a[1]}) (fp.eq {a[0]} {a[1]}))'
        return f'(= {a[0]} {a[1]})'
    if op == 'uf':
        return f"(uf_{n.aux}_{'_'.join(x.dt for x in n.args)}_{dt} {' '.join(a)})"
    if mode == 're':
        if op in ('add', 'sub', 'mul'):
            return f"({ {'add': '+', 'sub': '-', 'mul': '*'}[op]} {a[0]} {a[1]})"
        if op == 'div':
            if is_float(dt):
                return f'(/ {a[0]} {a[1]})'
            return f'(ite (= {a[1]} 0) (- 1) (ite (>= {a[0]} 0) (div {a[0]} {a[1]}) (- (div (- {a[0]}) {a[1]}))))'
        if op == 'rem' and is_int(dt):
            return f'(ite (= {a[1]} 0) {a[0]} (ite (>= {a[0]} 0) (mod {a[0]} {a[1]}) (- (mod (- {a[0]}) {a[1]}))))'
        if op == 'neg': return f'(- {a[0]})'
        if op == 'abs': return f'(ite (>= {a[0]} 0) {a[0]} (- {a[0]}))'
        if op == 'sign': return f'(ite (> {a[0]} 0) 1 (ite (< {a[0]} 0) (- 1) 0))' if is_int(dt) else f'(ite (> {a[0]} 0.0) 1.0 (ite (< {a[0]} 0.0) (- 1.0) 0.0))'
        if op == 'max': return f'(ite (>= {a[0]} {a[1]}) {a[0]} {a[1]})'
        if op == 'min': return f'(ite (<= {a[0]} {a[1]}) {a[0]} {a[1]})'
        if op == 'lt': return f'(< {a[0]} {a[1]})'
        if op == 'le': return f'(<= {a[0]} {a[1]})'
        if op in ('eq', 'req'): return f'(= {a[0]} {a[1]})'
        if op == 'ne': return f'(not (= {a[0]} {a[1]}))'
        if op in ('isnan', 'isinf'): return 'false'
        if op == 'finite': return 'true'
        if op == 'floor': return f'(to_real (to_int {a[0]}))'
        if op == 'rint':
            n, d = f'(to_int {a[0]})', f'(- {a[0]} (to_real (to_int {a[0]})))'
            return f'(to_real (ite (or (< {d} 0.5) (and (= {d} 0.5) (= (mod {n} 2) 0))) {n} (+ {n} 1)))'
        if op == 'conv':
            if dt == 'b':
                return f"(not (= {a[0]} {'0.0' if is_float(d0) else '0'}))"
            if d0 == 'b':
                return f"(ite {a[0]} {'1.0 0.0' if is_float(dt) else '1 0'})"
            if is_float(dt):
                return a[0] if is_float(d0) else f'(to_real {a[0]})'
            if is_float(d0):
                return f'(ite (>= {a[0]} 0.0) (to_int {a[0]}) (- (to_int (- {a[0]}))))'
            return a[0]
    else:
        fl = is_float(d0)
        if op in ('add', 'sub', 'mul', 'div') and is_float(dt):
            return f'(fp.{op} {RM} {a[0]} {a[1]})'
        if op in ('iand', 'ior', 'ixor'):
            return f"(bv{op[1:]} {a[0]} {a[1]})"
        if op in ('div', 'rem') and is_int(dt):
            z = lit(-1, dt, mode) if op == 'div' else a[0]
            return f"(ite (= {a[1]} {lit(0, dt, mode)}) {z} (bv{'u' if dt[0] == 'u' else 's'}{op} {a[0]} {a[1]}))"
        if op in ('add', 'sub', 'mul') and is_int(dt):
            return f'(bv{op} {a[0]} {a[1]})'
        if op == 'neg': return f'(fp.neg {a[0]})' if fl else f'(bvneg {a[0]})'
        if op == 'abs': return f'(fp.abs {a[0]})' if fl else f'(ite (bvslt {a[0]} {lit(0, dt, mode)}) (bvneg {a[0]}) {a[0]})'
        u = 'u' if d0 and d0[0] == 'u' else 's'
        if op == 'lt': return f'(fp.lt {a[0]} {a[1]})' if fl else f'(bv{u}lt {a[0]} {a[1]})'
        if op == 'le': return f'(fp.leq {a[0]} {a[1]})' if fl else f'(bv{u}le {a[0]} {a[1]})'
        if op == 'eq': return f'(fp.eq {a[0]} {a[1]})' if fl else f'(= {a[0]} {a[1]})'
        if op == 'ne': return f'(not (fp.eq {a[0]} {a[1]}))' if fl else f'(not (= {a[0]} {a[1]}))'
        if op == 'req':
            return f'(or (fp.eq {a[0]} {a[1]}) (and (fp.isNaN {a[0]}) (fp.isNaN {a[1]})))' if fl else f'(= {a[0]} {a[1]})'
        if op in ('max', 'min'):
            if fl:
                c = 'fp.geq' if op == 'max' else 'fp.leq'
                return f'(ite (fp.isNaN {a[0]}) {a[0]} (ite (fp.isNaN {a[1]}) {a[1]} (ite ({c} {a[0]} {a[1]}) {a[0]} {a[1]})))'
            c = f'bv{u}ge' if op == 'max' else f'bv{u}le'
            return f'(ite ({c} {a[0]} {a[1]}) {a[0]} {a[1]})'
        if op == 'sign' and not fl:
            z = lit(0, dt, mode)
            return f'(ite (= {a[0]} {z}) {z} (ite (bvslt {a[0]} {z}) {lit(-1, dt, mode)} {lit(1, dt, mode)}))' if u == 's' else f'(ite (= {a[0]} {z}) {z} {lit(1, dt, mode)})'
        if op == 'sign' and fl:
            o, z = lit(1, dt, mode), lit(0, dt, mode)
            return f'(ite (fp.gt {a[0]} {z}) {o} (ite (fp.lt {a[0]} {z}) (fp.neg {o}) {a[0]}))'
        if op == 'rint' and fl: return f'(fp.roundToIntegral {RM} {a[0]})'
        if op == 'floor' and fl: return f'(fp.roundToIntegral roundTowardNegative {a[0]})'
        if op == 'ceil' and fl: return f'(fp.roundToIntegral roundTowardPositive {a[0]})'
        if op == 'isnan': return f'(fp.isNaN {a[0]})' if fl else 'false'
        if op == 'isinf': return f'(fp.isInfinite {a[0]})' if fl else 'false'
        if op == 'finite': return f'(not (or (fp.isNaN {a[0]}) (fp.isInfinite {a[0]})))' if fl else 'true'
        if op == 'conv':
            if dt == 'b':
                return f'(not (fp.isZero {a[0]}))' if fl else f'(not (= {a[0]} {lit(0, d0, mode)}))'
            if d0 == 'b':
                return f'(ite {a[0]} {lit(1, dt, mode)} {lit(0, dt, mode)})'
            if is_float(dt):
                e, m = FPBITS[dt]
                return f'((_ to_fp {e} {m}) {RM} {a[0]})' if (fl or u == 's') else f'((_ to_fp_unsigned {e} {m}) {RM} {a[0]})'
            if fl:
                return f"((_ fp.to_{dt[0].replace('i', 's')}bv {INTBITS[dt]}) roundTowardZero {a[0]})"
            b0, b1 = INTBITS[d0], INTBITS[dt]
            if b0 == b1: return a[0]
            if b0 > b1: return f'((_ extract {b1 - 1} 0) {a[0]})'
            return f"((_ {'zero' if u == 'u' else 'sign'}_extend {b1 - b0}) {a[0]})"
    raise ir.Unsupported(f'smt {op} {d0}->{dt} in {mode}')


def nonfinite(n):
    """A comparison of a real with an infinity or NaN constant."""
    if len(n.args) == 2:
        sides = [float(x.aux) if x.op == 'const' and not np.isfinite(float(x.aux)) else None for x in n.args]
        if None in sides:
            a, b = sides
            v = a if a is not None else b
            if n.op in ('eq', 'same', 'ident', 'req'): return 'false'
            if n.op == 'ne': return 'true'
            if n.op in ('lt', 'le') and v == v:
                return 'true' if (v > 0) == (b is not None) else 'false'
            if n.op in ('lt', 'le'): return 'false'
    raise ir.Unsupported(f'non-finite constant in the real encoding of {n.op}')


def to_smt(asserts, mode, extra=(), abstract_mul=False):
    """SMT-LIB text for the conjunction; returns (text, [(smt name, var node)])."""
    nodes = topo(asserts)
    lines, names, vs, ufs = [], {}, [], set()
    muls = []
    for n in nodes:
        if n.op == 'const':
            names[n.id] = '!nonfinite' if mode == 're' and is_float(n.dt) and not np.isfinite(float(n.aux)) else lit(n.aux, n.dt, mode)
        elif n.op == 'var':
            s = f'v{len(vs)}'
            vs.append((s, n))
            names[n.id] = s
            lines.append(f'(declare-const {s} {sort_of(n.dt, mode)})')
        else:
            if n.op == 'uf':
                f = f"uf_{n.aux}_{'_'.join(x.dt for x in n.args)}_{n.dt}"
                if f not in ufs:
                    ufs.add(f)
                    lines.append(f"(declare-fun {f} ({' '.join(sort_of(x.dt, mode) for x in n.args)}) {sort_of(n.dt, mode)})")
            s = f'n{len(names)}'
            if abstract_mul and n.op == 'mul' and is_float(n.dt) and mode == 'fp':
                lines.append(f'(declare-const {s} {sort_of(n.dt, mode)})')
                names[n.id] = s
                a, b = names[n.args[0].id], names[n.args[1].id]
                muls.append((s, a, b, n.dt))
                continue
            if any(names[a.id] == '!nonfinite' for a in n.args):
                e = nonfinite(n)
            else:
                e = expr(n, [names[a.id] for a in n.args], mode)
            lines.append(f'(define-fun {s} () {sort_of(n.dt, mode)} {e})')
            names[n.id] = s
            if n.op == 'uf' and n.aux == 'sqrt' and mode == 're':
                x = names[n.args[0].id]
                lines.append(f'(assert (=> (<= 0.0 {x}) (and (<= 0.0 {s}) (= (* {s} {s}) {x}))))')
    for s, a, b, dt in muls:
        lines += mul_axioms(s, a, b, dt)
    for a in asserts:
        lines.append(f'(assert {names[a.id]})')
    for f in extra:
        lines += f({n.aux: s for s, n in vs}, vs)
    return '\n'.join(lines), vs


def mul_axioms(s, a, b, dt):
    """True facts about IEEE multiplication (RNE), enough for the sign and bound properties."""
    z, o = lit(0, dt, 'fp'), lit(1, dt, 'fp')
    nan = lambda x: f'(fp.isNaN {x})'
    fin = lambda x: f'(not (or (fp.isNaN {x}) (fp.isInfinite {x})))'
    ax = [f'(=> (or {nan(a)} {nan(b)}) {nan(s)})',
          f'(=> (and {fin(a)} {fin(b)}) (not {nan(s)}))',
          f'(=> (and {fin(a)} {fin(b)} (= (fp.isNegative {a}) (fp.isNegative {b}))) (not (fp.isNegative {s})))',
          f'(=> (and {fin(a)} {fin(b)} (not (= (fp.isNegative {a}) (fp.isNegative {b})))) (fp.isNegative {s}))',
          f'(=> (fp.eq {a} {o}) (= {s} {b}))', f'(=> (fp.eq {b} {o}) (= {s} {a}))',
          f'(=> (and {fin(a)} {fin(b)} (or (fp.isZero {a}) (fp.isZero {b}))) (fp.isZero {s}))']
    for p, q in ((a, b), (b, a)):
        ax.append(f'(=> (and {fin(p)} {fin(q)} (fp.leq (fp.abs {p}) {o})) (fp.leq (fp.abs {s}) (fp.abs {q})))')
        ax.append(f'(=> (and {fin(p)} {fin(q)} (fp.geq (fp.abs {p}) {o})) (fp.geq (fp.abs {s}) (fp.abs {q})))')
    return [f'(assert {x})' for x in ax]


def to_uf(asserts):
    """Floats as an uninterpreted sort and their arithmetic as uninterpreted functions: only 'unsat' counts."""
    lines, names, funs = [], {}, {}
    fs = lambda dt: f'F{dt}' if is_float(dt) else sort_of(dt, 'fp')
    for d in ir.FLOATS:
        lines.append(f'(declare-sort F{d} 0)')

    def fun(n):
        f = f"o_{n.op}_{n.aux if n.op == 'uf' else ''}_{'_'.join(x.dt for x in n.args)}_{n.dt}"
        if f not in funs:
            funs[f] = True
            lines.append(f"(declare-fun {f} ({' '.join(fs(x.dt) for x in n.args)}) {fs(n.dt)})")
        return f
    for k, n in enumerate(topo(asserts)):
        s = f'n{k}'
        a = [names[x.id] for x in n.args]
        flt = is_float(n.dt) or any(is_float(x.dt) for x in n.args)
        if n.op == 'var' or (n.op == 'const' and flt):
            lines.append(f'(declare-const {s} {fs(n.dt)})')
        elif n.op == 'const':
            s = lit(n.aux, n.dt, 'fp')
        else:
            if n.op in ('ite', 'ident') or n.op == 'same' and not flt:
                e = f"({'ite' if n.op == 'ite' else '='} {' '.join(a)})"
            elif n.op in ('req', 'same') and flt:
                e = f'(or (= {a[0]} {a[1]}) ({fun(n)} {a[0]} {a[1]}))'
            elif flt or n.op == 'uf':
                e = f"({fun(n)} {' '.join(a)})"
                if n.op in ir.COMM and a[0] != a[1]:
                    lines.append(f"(assert (= {e} ({fun(n)} {a[1]} {a[0]})))")
            else:
                e = expr(n, a, 'fp')
            lines.append(f'(define-fun {s} () {fs(n.dt)} {e})')
        names[n.id] = s
    return '\n'.join(lines + [f'(assert {names[a.id]})' for a in asserts])


_tok = re.compile(r'\(|\)|[^\s()]+')


def parse_sexprs(s):
    out, stack = [], []
    for t in _tok.findall(s):
        if t == '(':
            stack.append([])
        elif t == ')':
            x = stack.pop()
            (stack[-1] if stack else out).append(x)
        else:
            (stack[-1] if stack else out).append(t)
    return out


def parse_val(x, dt, mode):
    if dt == 'b':
        return np.bool_(x == 'true')
    if is_int(dt):
        if mode == 're':
            v = int(frac(x))
        elif isinstance(x, str):
            v = int(x[2:], 2) if x.startswith('#b') else int(x[2:], 16)
        else:
            v = int(x[1][2:])
        bits = INTBITS[dt]
        if dt[0] == 'i' and v >= 1 << (bits - 1) and mode == 'fp':
            v -= 1 << bits
        return np_of(dt)(v)
    if mode == 're':
        return frac(x)
    e, m = FPBITS[dt]
    if x[0] == 'fp':
        b = ''.join(t[2:] if t.startswith('#b') else ''.join(f'{int(c, 16):04b}' for c in t[2:]) for t in x[1:])
        ui = {16: np.uint16, 32: np.uint32, 64: np.uint64}[e + m]
        return np.array(int(b, 2), dtype=ui).view(np_of(dt))[()]
    k = x[1]
    return np_of(dt)({'+zero': 0.0, '-zero': -0.0, '+oo': np.inf, '-oo': -np.inf, 'NaN': np.nan}[k])


def frac(x):
    if isinstance(x, str):
        return Fraction(x.rstrip('?')) if x not in ('/',) else None
    if x[0] == '-':
        return -frac(x[1])
    if x[0] == '/':
        return frac(x[1]) / frac(x[2])
    raise ir.Unsupported(f'algebraic model value {x}')


class Query:
    """pre /\\ not goal, rendered once (in the calling thread); identical text is decided once."""

    def __init__(self, asserts, mode, timeout=60, extra=(), structural=False, hint=None):
        self.narrow_texts = []
        self.mode, self.timeout = mode, timeout
        self.trivial = any(a.op == 'const' and not bool(a.aux) for a in asserts)
        self.text = self.abs_text = ''
        self.vs = []
        if self.trivial:
            return
        self.structural = structural and mode == 'fp'
        self.text, self.vs = to_smt(asserts, mode, extra)
        self.uf_text = to_uf(asserts) if mode == 'fp' else ''
        if mode == 'fp' and any(n.op == 'mul' and is_float(n.dt) for n in topo(asserts)):
            self.abs_text, _ = to_smt(asserts, mode, extra, abstract_mul=True)
        self.narrow_texts = narrowed(self.text, self.vs, mode, hint)

    def get(self):
        return f"(get-value ({' '.join(s for s, _ in self.vs)}))\n" if self.vs else ''

    def read(self, out):
        model = {}
        if self.vs:
            pairs = parse_sexprs(out.split('\n', 1)[1])[0]
            for (s, n), (s2, val) in zip(self.vs, pairs):
                assert s == s2
                model[n.aux] = parse_val(val, n.dt, self.mode)
        return model

    def decide(self):
        """(verdict, model): sat / unsat / unknown."""
        v, m = self.quick()
        return self.full() if v == 'unknown' else (v, m)

    def result(self, v, out):
        if v == 'sat':
            try:
                return 'sat', self.read(out)
            except ir.Unsupported:
                return 'sat', None
        return v, None

    def quick(self):
        if self.trivial:
            with _lock:
                STATS['trivial'] += 1
            return 'unsat', None
        if self.structural:
            v, out = _solve([('z3!', self.uf_text, '')], min(8, self.timeout))
            if v == 'unsat':
                return v, None
        return self.result(*_solve([('z3', self.text, self.get())], min(4, self.timeout)))

    def full(self):
        left = DEADLINE[0] - time.time()
        if left < 5 or CANCEL[0]:
            return 'unknown', None
        if self.narrow_texts:       # part of the space first: only 'sat' counts
            v, out = _solve([('z3?', t, self.get()) for t in self.narrow_texts], min(8, self.timeout, left))
            if v == 'sat':
                return self.result(v, out)
        runs = [(n, self.text, self.get()) for n in ('cvc5', 'z3', 'z3b')]
        if self.abs_text:       # multiplication by its axioms: only 'unsat' counts
            runs.append(('z3!', self.abs_text, ''))
        if self.uf_text and not self.structural:
            runs.append(('z3!!', self.uf_text, ''))
        left = DEADLINE[0] - time.time()
        if left < 5:
            return 'unknown', None
        return self.result(*_solve(runs, min(self.timeout, left)))


def narrowed(text, vs, mode, hint):
    """The query on parts of its input space where a counterexample is cheap to find: short mantissas,
    respectively half of the inputs held at a valid value."""
    out = []
    if mode != 'fp' or not any(is_float(n.dt) for _, n in vs):
        return out
    t, add = text, []
    for s, n in vs:
        if is_float(n.dt):
            e, m = FPBITS[n.dt]
            t = t.replace(f'(declare-const {s} {sort_of(n.dt, mode)})',
                          f'(declare-const b_{s} (_ BitVec {e + m}))\n(define-fun {s} () {sort_of(n.dt, mode)} ((_ to_fp {e} {m}) b_{s}))')
            add.append(f'(assert (= ((_ extract {m - 4} 0) b_{s}) (_ bv0 {m - 3})))')
    out.append('\n'.join([t] + add))
    if hint:
        for par in (0, 1):
            add = [f'(assert (= {s} {lit(hint[n.aux], n.dt, mode)}))' for k, (s, n) in enumerate(vs)
                   if n.aux in hint and k % 4 != 2 * par]
            out.append('\n'.join([text] + add))
    return out


CANCEL = [False]
DEADLINE = [float('inf')]
CMDS = {'z3': (['z3-new', '-in', '-smt2'], lambda t: f'-T:{int(t)}', ''),
        'z3b': (['z3', '-in', '-smt2'], lambda t: f'-T:{int(t)}', ''),
        'cvc5': (['cvc5', '--lang=smt2', '--produce-models', '--fp-exp'], lambda t: f'--tlimit={int(t * 1000)}',
                 '(set-logic ALL)\n')}
_live = set()


def _solve(runs, timeout):
    """Race the solvers on one query; the first decided verdict wins and the rest are stopped."""
    t0 = time.time()
    procs = []
    runs = [(f'{nm}#{k}', text, get) for k, (nm, text, get) in enumerate(runs)]
    names = [r[0] for r in runs]
    for nm, text, get in runs:
        cmd, lim, head = CMDS[nm.split('#')[0].rstrip('!?')]
        p = subprocess.Popen(cmd + [lim(timeout)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True)
        procs.append((nm, p, head + text + '\n(check-sat)\n' + get))
    res = {}
    done = threading.Event()

    def work(nm, p, body):
        try:
            out, _ = p.communicate(body, timeout=timeout + 10)
        except Exception:
            p.kill()
            out = ''
        first = out.strip().split('\n', 1)[0].strip() if out.strip() else ''
        errs = [l for l in out.split('\n') if '(error' in l]
        ok = all('model is not available' in l or 'annot get value' in l for l in errs)
        v = first if first in ('sat', 'unsat') and (ok or (first == 'sat' and not errs)) else 'unknown'
        if '!' in nm and v == 'sat' or '?' in nm and v == 'unsat':
            v = 'unknown'
        if errs and not ok and 'timeout' not in out and 'nterrupt' not in out and p.returncode is not None and p.returncode >= 0:
            res.setdefault('error', f'{nm}: {errs[0][:300]}')
        if v != 'unknown' and 'hit' not in res:
            res['hit'] = (v, out)
            done.set()
        res[nm] = v
        if all(n in res for n in names):
            done.set()

    ths = [threading.Thread(target=work, args=a, daemon=True) for a in procs]
    for t in ths:
        t.start()
    done.wait(timeout + 15)
    for _, p, _ in procs:
        if p.poll() is None:
            p.kill()
    for t in ths:
        t.join(5)
    v, out = res.get('hit', ('unknown', ''))
    if v == 'unknown' and 'error' in res:
        raise RuntimeError('solver error: ' + res['error'] + '\n' + text[:1500])
    dt = time.time() - t0
    with _lock:
        STATS['queries'] += 1
        STATS['solver_s'] += dt
        STATS['max_s'] = max(STATS['max_s'], dt)
        STATS[v] += 1
    return v, out


WORKERS = max(2, min(8, os.cpu_count() or 2))


def decide_all(queries, after_quick=None):
    """Verdicts in order; structurally identical queries are solved once.  after_quick sees the verdicts
    of the first, short round and may end the search (it returns True) before the long one."""
    first, todo = {}, []
    for q in queries:
        k = (q.trivial, q.mode, q.text)
        if k not in first:
            first[k] = q
            todo.append(q)
    res = {}

    def verdicts():
        out = []
        for q in queries:
            o = q if id(q) in res else first[(q.trivial, q.mode, q.text)]
            v, m = res[id(o)]
            if o is not q and m is not None:
                names = {s: n for s, n in o.vs}
                m = {n.aux: m[names[s].aux] for s, n in q.vs}
            out.append((v, m))
        return out
    STATS['cached'] += len(queries) - len(todo)
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for q, r in zip(todo, ex.map(lambda q: q.quick(), todo)):
            res[id(q)] = r
    rest = [q for q in todo if res[id(q)][0] == 'unknown']
    CANCEL[0] = False
    if rest and not (after_quick and after_quick(verdicts())):
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            futs = {ex.submit(q.full): q for q in rest}
            for f in cf.as_completed(futs):
                res[id(futs[f])] = f.result()
                if f.result()[0] == 'sat' and not CANCEL[0] and after_quick and after_quick(verdicts()):
                    CANCEL[0] = True        # a confirmed violation: the rest need not be decided
    return verdicts()
