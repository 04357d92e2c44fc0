"""Models of builtins, numpy and other external callables, at the level of terms."""
import ast
from fractions import Fraction

from . import terms as tm
from .terms import (T, mk, num, strc, sym, ite, asbool, bnot, band, bor, lift,
                    add, sub, mul, div, neg, power, absv, length, cat, drop,
                    take, store, cmp_eq, cmp_ge, cmp_gt, subst, contains, fresh,
                    mapseq, sumover, bind, seqlist, TRUE, FALSE, NONE, UNDEF,
                    ZERO, ONE, INF, NINF)

DATA_ATTRS = {'shape', 'ndim', 'size', 'dtype'}


def canon_name(q):
    if q == 'np' or q.startswith('np.'):
        q = 'numpy' + q[2:]
    q = q.replace('numpy.core.', 'numpy.').replace('numpy.lib.', 'numpy.')
    if q.startswith('numpy.linalg.linalg'):
        q = q.replace('numpy.linalg.linalg', 'numpy.linalg')
    return q


def const_ext(q):
    if q in ('numpy.inf', 'math.inf', 'numpy.Inf', 'numpy.infty'):
        return INF
    if q in ('numpy.nan', 'math.nan', 'numpy.NaN'):
        return mk('c', 'nan')
    if q in ('numpy.pi', 'math.pi'):
        return sym('pi', 'num')
    if q == 'numpy.newaxis':
        return NONE
    return None


def strip(t):
    return t.args[0] if t.op == 'arr' else t


def listish(t):
    return t.op in ('list', 'cat', 'map', 'drop', 'take', 'filter', 'rep', 'sorted', 'reversed', 'bagadd', 'bagdel', 'perm', 'keys') or \
        (t.op == 'sym' and t.args[1] in ('list', 'deque'))


def asarray(t):
    def f(x):
        if listish(x):
            return mk('arr', x)
        if x.op == 'tuple':
            return mk('arr', mk('list', *x.args))
        return x
    return lift(f, t)


def transpose(t):
    def f(x):
        if x.op == 'call' and x.args[0] == 'transpose':
            return x.args[1][0]
        return mk('call', 'transpose', (x,), ())
    return lift(f, t)


def ravel(t):
    def f(x):
        if x.op == 'call' and x.args[0] in ('ravel',):
            return x
        if x.op == 'call' and x.args[0] in ('reshape',):
            return ravel(x.args[1][0])
        if x.op == 'arr':
            return x
        return mk('call', 'ravel', (x,), ())
    return lift(f, t)


def reshape(t, dims):
    if len(dims) == 1 and isinstance(dims[0], T) and dims[0].op in ('tuple', 'list'):
        dims = dims[0].args
    dims = tuple(dims)
    if len(dims) == 1 and dims[0].op == 'num' and dims[0].args[0] == -1:
        return ravel(t)

    def f(x, *ds):
        if x.op == 'call' and x.args[0] in ('reshape', 'ravel'):
            x = x.args[1][0]
        return mk('call', 'reshape', (x, mk('tuple', *ds)), ())
    return lift(f, t, *dims)


def unview(base, p, new):
    if p[0] == 'asarray':
        return strip(new) if new.op == 'arr' else new
    return tm.mkl('unview', base, p, new)


def data_attr(t, name):
    def f(x):
        if x.op == 'undef':
            return UNDEF
        if name == 'shape':
            return mk('shape', strip(x))
        if name == 'size' and x.op in ('arr', 'map'):
            return length(strip(x))
        return mk('attr', strip(x), name)
    return lift(f, t)


def index(x, j):
    """x[j] at value level (j not a slice)."""
    def f(a, i):
        if a.op == 'undef' or i.op == 'undef':
            return UNDEF
        if a.op == 'arr':
            if i.op in ('tuple', 'slice') or i.op in ('ge0', 'gt0', 'eq0', 'ne0', 'ne', 'eq'):
                return mk('idx', a.args[0], i)
            return tm.index(a.args[0], i)
        if a.op == 'shape':
            if i is ZERO:
                return length(a.args[0])
            return mk('idx', a, i)
        if i.op == 'tuple':
            # x[i, j] with trailing full slices
            es = list(i.args)
            while len(es) > 1 and es[-1].op == 'slice' and all(z is NONE for z in es[-1].args):
                es.pop()
            if len(es) == 1:
                return index(a, es[0])
            if a.op == 'store' and a.args[1] is mk('tuple', *es):
                return a.args[2]
            return mk('idx', a, mk('tuple', *es))
        if i.op == 'slice':
            lo, hi, st = i.args
            if st is NONE:
                return tm.subseq(a, lo, hi)
            return mk('stepslice', a, lo, hi, st)
        if a.op == 'call' and a.args[0] == 'numpy.arange1':
            return i
        return tm.index(a, i)
    return lift(f, x, j)


def reversed_(x):
    def f(a):
        a = strip(a)
        if a.op == 'reversed':
            return a.args[0]
        if a.op == 'list':
            return mk('list', *reversed(a.args))
        if a.op == 'map':
            k = fresh()
            b, = tm.open_binder(a, k)
            return mapseq(a.args[0], k, subst(b, {k: sub(sub(a.args[0], ONE), k)}))
        return mk('reversed', a)
    return lift(f, x)


def contains_(k, d):
    d = strip(d)
    if d.op == 'call' and d.args[0] in ('keys',):
        d = d.args[1][0]
    if d.op == 'keys':
        d = d.args[0]
    if d.op in ('list', 'tuple', 'setv'):
        r = FALSE
        for e in d.args:
            r = bor(r, cmp_eq(k, e))
        return r
    if d.op == 'dict0':
        return FALSE
    if d.op == 'store' and d.args[1] is k:
        return TRUE
    if d.op == 'setof':
        d = d.args[0]
    return mk('in', k, d)


def mod(a, b):
    def f(x, y):
        if x.op == 'num' and y.op == 'num' and y.args[0] != 0:
            return num(x.args[0] % y.args[0])
        if x.op == 'str':
            return mk('strfmt', x, y)
        # (a + c*b) % b == a % b
        if tm.is_int(x) and tm.is_int(y):
            p = tm.to_poly(x)
            q = {}
            for m, c in p.items():
                mm = tm.from_poly({m: Fraction(1)})
                if mm is y:
                    continue
                q[m] = c
            x = tm.from_poly(q)
            if x is ZERO:
                return ZERO
        return mk('mod_', x, y)
    return lift(f, a, b)


def floordiv(a, b):
    def f(x, y):
        if x.op == 'num' and y.op == 'num' and y.args[0] != 0:
            return num(x.args[0] // y.args[0])
        return mk('floordiv', x, y)
    return lift(f, a, b)


def delete_at(c, i):
    def f(x, j):
        y = strip(x)
        if j is ZERO:
            return drop(y, ONE)
        if j.op == 'num' and j.args[0] == -1:
            return take(y, sub(length(y), ONE))
        if j.op == 'num' and j.args[0] < -1:
            j = add(length(y), j)
        return cat(take(y, j), drop(y, add(j, ONE)))
    return lift(f, c, i)


def alloc_len(t):
    if t.op == 'alloc':
        return t.args[1]
    return None


def alloc_dims(t):
    if t.op == 'alloc':
        return (t.args[1],) + tuple(t.args[2])
    return None


def tabulate(init, cnt, k, v):
    if init.op == 'alloc' and t_rest(init):
        return mk('mat', mapseq(cnt, k, v), tuple(t_rest(init)))
    return mapseq(cnt, k, v)


def t_rest(t):
    return t.args[2] if t.op == 'alloc' else ()


# ------------------------------------------------------------------ vectors
def vec_atoms(t):
    """arr atoms occurring elementwise in t (through polynomials/comparisons)."""
    out = []

    def rec(x):
        if x.op == 'arr' or x.op == 'map':
            if x not in out:
                out.append(x)
        elif x.op == 'poly':
            for m, c in x.args[0]:
                for a, e in m:
                    rec(a)
        elif x.op in ('ge0', 'gt0', 'eq0', 'ne0', 'abs', 'maskand', 'maskor', 'pow', 'ne', 'eq'):
            for c in x.args:
                rec(c)
        elif x.op == 'call' and x.args[0] in ('log', 'exp', 'floor', 'ceil', 'tanh', 'erfc'):
            for c in x.args[1]:
                rec(c)
    rec(t)
    return out


def scalar_rest(t):
    """the atoms of t other than its vectors are single numbers"""
    if t.op in ('arr', 'map'):
        return True
    if t.op == 'poly':
        return all(scalar_rest(a) for m, c in t.args[0] for a, e in m)
    if t.op in ('ge0', 'gt0', 'eq0', 'ne0', 'abs', 'maskand', 'maskor', 'pow', 'ne', 'eq'):
        return all(scalar_rest(c) for c in t.args if isinstance(c, tm.T))
    if t.op == 'call' and t.args[0] in ('log', 'exp', 'floor', 'ceil', 'tanh', 'erfc'):
        return all(scalar_rest(c) for c in t.args[1])
    if t.op == 'call' and t.args[0] in ('dot', 'outer', 'transpose', 'exp'):
        return False
    return tm.is_scalar(t) or t.op in ('len', 'sum') or t.op == 'sym' and '[*]' not in t.args[0] and not t.args[0].startswith('self.')


def vec_at(t, atoms, k):
    m = {}
    for a in atoms:
        s = strip(a)
        m[a] = tm.index(s, k)
    return subst(t, m)


def vsize(t):
    t0 = strip(t)
    if t0 is not t:
        return length(t0)
    at = vec_atoms(t)
    if at:
        return length(strip(at[0]))
    if t.op in ('ge0', 'gt0', 'eq0', 'ne0', 'poly', 'abs'):
        cands = []
        p = t if t.op == 'poly' else t.args[0]
        for m, c in tm.to_poly(p).items():
            for a, e in m:
                if a.op in ('call', 'mcall', 'drop', 'take', 'cat', 'alloc', 'stores', 'filter'):
                    if a not in cands:
                        cands.append(a)
        if len(cands) == 1:
            return length(cands[0])
    return length(t)


def npsum(t):
    def f(x):
        if x.op == 'map':
            k = fresh()
            b, = tm.open_binder(x, k)
            return sumover(x.args[0], k, b)
        if x.op == 'arr':
            s = x.args[0]
            k = fresh()
            if s.op == 'list':
                r = ZERO
                for e in s.args:
                    r = add(r, e)
                return r
            if s.op == 'map':
                return npsum(s)
            return sumover(length(s), k, tm.index(s, k))
        if x.op == 'list':
            r = ZERO
            for e in x.args:
                r = add(r, e)
            return r
        if x.op == 'filter':
            k = fresh()
            c, v = tm.open_binder(x, k)
            return sumover(x.args[0], k, ite(c, v, ZERO))
        if listish(x):
            k = fresh()
            return sumover(length(x), k, tm.index(x, k))
        at = vec_atoms(x)
        if at and len({length(strip(a)).dig for a in at}) == 1 and scalar_rest(x):
            k = fresh()
            return sumover(length(strip(at[0])), k, vec_at(x, at, k))
        if x.op == 'num':
            return x
        # linearity over constant factors
        p = tm.to_poly(x)
        if len(p) == 1:
            (m, c), = p.items()
            if c != 1 and m:
                return mul(num(c), npsum(tm.from_poly({m: Fraction(1)})))
        return mk('call', 'sum', (x,), ())
    return lift(f, t)


def unary(name):
    def g(args, kw):
        return lift(lambda x: mk('call', name, (strip(x),), ()), args[0])
    return g


def _kwt(kw):
    return tuple(sorted(kw.items()))


def dropfloat(kw):
    kw = dict(kw)
    d = kw.get('dtype')
    if d is not None and (d.op == 'ext' and d.args[0].split('.')[-1] in ('float64', 'float', 'double', 'float_') or d is NONE):
        kw.pop('dtype')
    for n in ('copy', 'order', 'subok', 'keepdims'):
        if n in kw and kw[n].op in ('bool', 'str', 'none') and n != 'keepdims':
            kw.pop(n)
    if 'axis' in kw and kw['axis'] is NONE:
        kw.pop('axis')
    return kw


def alloc(kind, shape, fill=None):
    def f(s):
        if s.op in ('tuple', 'list'):
            if not s.args:
                return mk('alloc', kind, ONE, ())
            return mk('alloc', kind, s.args[0], tuple(s.args[1:]))
        if s.op == 'shape':
            return mk('alloc', kind, length(s.args[0]), (mk('shaperest', s.args[0]),))
        return mk('alloc', kind, s, ())
    return lift(f, shape)


KNOWN = set()      # canonical names with modelled meaning (known vocabulary)


def call(name, args, kw):
    """Pure external function over frozen terms -> canonical term."""
    q = canon_name(name)
    base = q.split('.')[-1]
    root = q.split('.')[0]
    args = list(args)
    kw = dict(kw)
    if any(a.op == 'undef' for a in args):
        return UNDEF
    if root in ('numpy', 'math', 'builtins', 'scipy'):
        r = _known(q, base, root, args, kw)
        if r is not None:
            return r
    return tm.mkl('call', q, tuple(strip_l(a) for a in args), _kwt({k: strip_l(v) for k, v in kw.items()}))


def strip_l(t):
    if t.op == 'ite':
        return ite(t.args[0], strip_l(t.args[1]), strip_l(t.args[2]))
    return strip(t)


def _axis(args, kw, pos=1):
    if 'axis' in kw:
        return kw['axis']
    if len(args) > pos:
        return args[pos]
    return None


def _known(q, base, root, args, kw):
    n = len(args)
    kw0 = kw
    if root == 'numpy' and q.count('.') == 1 or root == 'math' or root == 'builtins':
        if base in ('abs', 'absolute', 'fabs') and n == 1:
            return absv(args[0])
        if base == 'sqrt' and n == 1:
            return tm.sqrt(args[0])
        if base in ('power', 'pow', 'float_power') and n == 2:
            return power(args[0], args[1])
        if base == 'square' and n == 1:
            return power(args[0], num(2))
        if base in ('add', 'subtract', 'multiply', 'divide', 'true_divide') and n >= 2 and root == 'numpy' and 'out' not in kw:
            return {'add': add, 'subtract': sub, 'multiply': mul, 'divide': div, 'true_divide': div}[base](args[0], args[1])
        if base in ('negative',):
            return neg(args[0])
        if base in ('greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal') and n == 2:
            a, b = args
            return {'greater': lambda: cmp_gt(a, b), 'greater_equal': lambda: cmp_ge(a, b), 'less': lambda: cmp_gt(b, a),
                    'less_equal': lambda: cmp_ge(b, a), 'equal': lambda: cmp_eq(a, b), 'not_equal': lambda: tm.cmp_ne(a, b)}[base]()
        if base == 'logical_not':
            return lift(tm.vnot, args[0])
        if base == 'log' and n == 2:
            return div(_log(args[0]), _log(args[1]))
        if base == 'log' and n == 1:
            return _log(args[0])
        if base == 'log2' and n == 1:
            return div(_log(args[0]), _log(num(2)))
        if base == 'log10' and n == 1:
            return div(_log(args[0]), _log(num(10)))
        if base == 'log1p' and n == 1:
            return _log(add(ONE, args[0]))
        if base in ('exp', 'floor', 'ceil', 'tanh', 'cos', 'sin', 'erfc', 'erf', 'isnan', 'isfinite', 'isinf', 'sign', 'trunc', 'rint') and n == 1 and not kw:
            return lift(lambda x: mk('call', base, (x,), ()), args[0])
        if base in ('mod', 'remainder', 'fmod') and n == 2:
            return mod(*args)
        if base == 'floor_divide' and n == 2:
            return floordiv(*args)
    if root == 'numpy':
        kw = dropfloat(kw)
        ax = _axis(args, kw)
        if base in ('sum', 'nansum') and ax is None and n == 1 and not kw:
            return npsum(args[0])
        if base == 'count_nonzero' and n == 1 and ax is None:
            return npsum(args[0])
        if base == 'mean' and ax is None and n == 1 and not kw:
            def f(x):
                return div(npsum(x), vsize(x))
            return lift(f, args[0])
        if base == 'mean':
            return tm.mkl('call', 'mean', (strip_l(args[0]),), _kwt({'axis': ax} if ax is not None else {}))
        if base == 'average' and n == 1 and not kw:
            return lift(lambda x: div(npsum(x), vsize(x)), args[0])
        if base in ('std', 'var'):
            dd = kw.get('ddof', ZERO)
            k2 = {'ddof': dd} if dd is not ZERO else {}
            if ax is not None:
                k2['axis'] = ax
            v = tm.mkl('call', 'var', (strip_l(args[0]),), _kwt(k2))
            return tm.sqrt(v) if base == 'std' else v
        if base in ('max', 'amax', 'min', 'amin') and n >= 1:
            b = 'max' if 'max' in base else 'min'
            return tm.mkl('call', b, (strip_l(args[0]),), _kwt({'axis': ax} if ax is not None else {}))
        if base in ('median',):
            return tm.mkl('call', 'median', (bagstrip(strip_l(args[0])),), _kwt({'axis': ax} if ax is not None else {}))
        if base in ('argmax', 'argmin', 'any', 'all', 'prod', 'cumsum', 'ptp', 'unique', 'diff', 'argsort') and n >= 1:
            if base in ('any', 'all') and n == 1 and not kw:
                pass
            return tm.mkl('call', base, tuple(strip_l(a) for a in args), _kwt(kw))
        if base == 'sort':
            return tm.mkl('sorted', strip_l(args[0]))
        if base in ('dot', 'matmul') and n == 2:
            return tm.mkl('call', 'dot', (strip_l(args[0]), strip_l(args[1])), ())
        if base == 'outer' and n == 2:
            return tm.mkl('call', 'outer', (strip_l(args[0]), strip_l(args[1])), ())
        if q == 'numpy.linalg.norm':
            o = kw.get('ord', args[1] if n > 1 else NONE)
            if ax is not None and 'axis' in kw:
                return tm.mkl('call', 'norm', (strip_l(args[0]), o), (('axis', kw['axis']),))
            if o is NONE or (o.op == 'num' and o.args[0] == 2):
                return tm.sqrt(npsum(power(args[0], num(2))))
            if o.op == 'num' and o.args[0] == 1:
                return npsum(absv(args[0]))
            return tm.mkl('call', 'norm', (strip_l(args[0]), o), ())
        if base in ('zeros', 'ones', 'empty') and n >= 1:
            return alloc(base, args[0])
        if base == 'full' and n >= 2:
            return mul(alloc('ones', args[0]), args[1])
        if base in ('zeros_like', 'ones_like', 'empty_like'):
            return lift(lambda x: mk('alloc', base[:-5], length(x), (mk('shaperest', strip(x)),)), args[0])
        if base == 'arange':
            a = [x for x in args]
            if n == 1:
                lo, hi, st = ZERO, a[0], ONE
            elif n == 2:
                lo, hi, st = a[0], a[1], ONE
            else:
                lo, hi, st = a[0], a[1], a[2]
            if st is ONE:
                return asarray(rangeseq(lo, hi, st))
        if base in ('array', 'asarray', 'asfarray', 'ascontiguousarray', 'asanyarray', 'atleast_1d') and n >= 1:
            d = kw.get('dtype', args[1] if n > 1 else None)
            if d is None or _isfloat(d):
                return asarray(args[0])
            return tm.mkl('call', 'astype', (strip_l(args[0]), narrow(d) or d), ())
        if base == 'float64' and n == 1:
            return args[0]
        if base in ('float32', 'float16', 'half', 'single') and n == 1:
            return cast(args[0], narrow(mk('ext', q)))
        if base in ('int32', 'int64', 'int_') and n == 1:
            return _int(args[0])
        if base == 'concatenate' and n >= 1:
            a = strip(args[0])
            if (ax is None or ax is ZERO) and a.op in ('tuple', 'list'):
                return cat(*[strip_l(x) for x in a.args])
        if base in ('append',) and n == 2:
            x = strip_l(args[1])
            return cat(strip_l(args[0]), x if listish(x) else seqlist(x))
        if base == 'insert' and n == 3 and args[1] is ZERO:
            x = strip_l(args[2])
            return cat(seqlist(x), strip_l(args[0]))
        if base == 'delete' and n == 2:
            return delete_at(strip_l(args[0]), args[1])
        if base == 'roll':
            return None
        if base in ('where', 'nonzero', 'flatnonzero') and n == 1:
            c = args[0]
            r = tm.mkl('call', 'where', (c,), ())
            return tm.mkl('idx', r, ZERO) if base == 'flatnonzero' else r
        if base == 'where' and n == 3:
            return tm.mkl('call', 'where3', tuple(args), ())
        if base in ('maximum', 'fmax') and n == 2 and 'out' not in kw:
            return lift(lambda a, b: mk('maximum', *sorted((a, b), key=lambda t: t.dig)), *args)
        if base in ('minimum', 'fmin') and n == 2 and 'out' not in kw:
            return lift(lambda a, b: mk('minimum', *sorted((a, b), key=lambda t: t.dig)), *args)
        if base == 'clip' and n == 3:
            return tm.mkl('call', 'clip', tuple(args), ())
        if base == 'transpose' and n == 1:
            return transpose(args[0])
        if base == 'ravel' and n == 1:
            return ravel(args[0])
        if base == 'reshape':
            return reshape(args[0], args[1:])
        if base == 'copy' and n == 1:
            return args[0]
        if base == 'squeeze':
            return tm.mkl('call', 'squeeze', (strip_l(args[0]),), _kwt(kw))
        if base == 'expand_dims':
            return tm.mkl('call', 'expand_dims', (strip_l(args[0]),), _kwt({'axis': ax} if ax is not None else {}))
        if base == 'shape' and n == 1:
            return mk('shape', strip(args[0]))
        if base == 'size' and n == 1:
            return data_attr(args[0], 'size')
        if base == 'ndim' and n == 1:
            return data_attr(args[0], 'ndim')
        if base == 'isclose':
            return None
    if root == 'builtins':
        return _builtin_pure(base, args, kw)
    return None


def narrow(d):
    """dtypes with fewer digits than double precision"""
    if d is None:
        return None
    b = d.args[0].split('.')[-1] if d.op in ('ext', 'str') else None
    b = {'f4': 'float32', '<f4': 'float32', 'single': 'float32', 'f': 'float32', 'f2': 'float16', '<f2': 'float16', 'half': 'float16', 'e': 'float16'}.get(b, b)
    return mk('ext', 'numpy.' + b) if b in ('float32', 'float16') else None


def cast(v, d):
    if d is None:
        return v
    def f(x):
        if x.op in ('ref', 'view') or x.op == 'num' and x.args[0].denominator == 1 and abs(x.args[0]) < 1024:
            return x
        return tm.mkl('call', 'astype', (strip_l(x), d), ())
    return lift(f, v)


def _isfloat(d):
    return d.op == 'ext' and d.args[0].split('.')[-1] in ('float64', 'float', 'double', 'float_') or d is NONE


def _log(t):
    return lift(lambda x: ZERO if x is ONE else mk('call', 'log', (x,), ()), t)


def _int(t):
    def f(x):
        if tm.is_int(x):
            return x
        if x.op in ('ge0', 'gt0', 'eq0', 'ne0', 'bool', 'in', 'notin', 'eq', 'ne'):
            return ite(x, ONE, ZERO)
        if x.op == 'call' and x.args[0] in ('argmax', 'argmin'):
            return x
        if x.op == 'num':
            return num(int(x.args[0]))
        return mk('call', 'int', (x,), ())
    return lift(f, t)


def bagstrip(t):
    """order-insensitive view of a sequence"""
    if t.op in ('sorted', 'reversed', 'perm'):
        return bagstrip(t.args[0])
    return t


def rangeseq(lo, hi, st):
    def f(a, b, s):
        if s is ONE:
            k = fresh()
            n = sub(b, a)
            if n.op == 'num' and n.args[0] < 0:
                return mk('list')
            return mapseq(n, k, add(a, k))
        if s.op == 'num' and s.args[0] == -1:
            k = fresh()
            return mapseq(sub(a, b), k, sub(a, k))
        return mk('rangestep', a, b, s)
    return lift(f, lo, hi, st)


def _builtin_pure(base, args, kw):
    n = len(args)
    if base == 'len' and n == 1:
        def f(x):
            x = strip(x)
            if x.op == 'idx' and x.args[1] is ZERO and x.args[0].op == 'call' and x.args[0].args[0] == 'where':
                return npsum(x.args[0].args[1][0])
            if x.op == 'shape':
                return mk('attr', x.args[0], 'ndim')
            return length(x)
        return lift(f, args[0])
    if base == 'range':
        if n == 1:
            return rangeseq(ZERO, args[0], ONE)
        if n == 2:
            return rangeseq(args[0], args[1], ONE)
        return rangeseq(args[0], args[1], args[2])
    if base == 'float' and n == 1:
        if args[0].op == 'str':
            s = args[0].args[0].strip().lower()
            if s in ('inf', '+inf', 'infinity'):
                return INF
            if s in ('-inf', '-infinity'):
                return NINF
        return args[0]
    if base == 'int' and n == 1:
        return _int(args[0])
    if base == 'bool' and n == 1:
        return lift(asbool, args[0])
    if base == 'str' and n == 1:
        return lift(lambda x: x if x.op == 'str' else mk('call', 'str', (x,), ()), args[0])
    if base in ('min', 'max') and n >= 2 and not kw:
        r = args[0]
        for a in args[1:]:
            if base == 'max':
                r = lift(lambda x, y: ite(cmp_ge(x, y), x, y), r, a)
            else:
                r = lift(lambda x, y: ite(cmp_ge(y, x), x, y), r, a)
        if n == 2 and r.op == 'ite' and sum(a.op == 'num' for a in args) == 1 and any(x.op == 'pow' for x in tm.walk(r)):
            return mk('frz', r)
        return r
    if base in ('min', 'max') and n == 1:
        return tm.mkl('call', base, (bagstrip(strip_l(args[0])),), _kwt(kw))
    if base == 'sum' and n >= 1:
        r = npsum(asarray(args[0]))
        return add(r, args[1]) if n > 1 else r
    if base == 'sorted' and n == 1:
        if kw:
            return tm.mkl('call', 'sorted', (strip_l(args[0]),), _kwt(kw))
        return lift(lambda x: mk('sorted', bagstrip(x)), strip_l(args[0]))
    if base == 'divmod' and n == 2:
        return mk('tuple', floordiv(*args), mod(*args))
    if base in ('any', 'all') and n == 1:
        def g(x):
            x = strip(x)
            if x.op == 'map':
                k = fresh()
                b, = tm.open_binder(x, k)
                b = asbool(b)
                if base == 'any':
                    return bind('any', x.args[0], k, (b,))
                return bnot(bind('any', x.args[0], k, (bnot(b),)))
            return mk('bcall', base, x)
        return lift(g, args[0])
    if base == 'isinstance' and n == 2:
        def h(x, c):
            nm = c.args[0].split('.')[-1] if c.op in ('ext', 'cls') else None
            if nm is None and c.op == 'tuple':
                return mk('isinst', x, strc('|'.join(sorted(str(e.args[0]).split('.')[-1] for e in c.args))))
            if listish(x) and nm == 'list':
                return TRUE
            if x.op == 'tuple' and nm == 'tuple':
                return TRUE
            if (listish(x) or x.op in ('num',)) and nm in ('tuple', 'str', 'dict'):
                return FALSE
            if x.op in ('ge0', 'gt0', 'ne0', 'eq0', 'eq', 'ne') and nm == 'bool':
                if all(not tm.is_scalar(a) for a in x.args if isinstance(a, tm.T)):
                    return FALSE            # elementwise comparison of array values
                return mk('isinst', x, strc('bool'))
            return mk('isinst', x, strc(nm or '?'))
        return lift(h, args[0], args[1])
    if base == 'round':
        return tm.mkl('call', 'round', tuple(args), _kwt(kw))
    if base == 'type':
        return tm.mkl('call', 'type', tuple(args), ())
    return None


# ------------------------------------------------------------------ effects
RNG_SCALAR = {'uniform', 'rand', 'randn', 'randint', 'random', 'random_sample', 'normal', 'permutation', 'choice', 'standard_normal',
              'binomial', 'poisson', 'exponential', 'sample', 'randrange', 'gauss', 'choices', 'integers', 'beta', 'gamma', 'random_integers',
              'normalvariate', 'getrandbits', 'laplace', 'multivariate_normal', 'ranf', 'bytes'}
NONDET = {'time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'os.urandom', 'uuid.uuid4', 'uuid.uuid1', 'secrets.token_bytes',
          'secrets.randbelow', 'secrets.token_hex', 'secrets.choice', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'os.getpid', 'random.SystemRandom', 'builtins.id', 'builtins.hash'}


def seq_iter(I, st, v):
    """(n, elem) of an iterable value, None when unknown"""
    return I.iter_desc(st, v)


COPYLESS = ('numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.asfarray', 'numpy.atleast_1d', 'numpy.ravel', 'numpy.reshape',
            'numpy.transpose', 'numpy.squeeze', 'numpy.array')


def ext_call(I, st, name, args, kw, n):
    q = canon_name(name)
    base = q.split('.')[-1]
    root = q.split('.')[0]
    # ---------------- builtins that need the state
    if root == 'builtins':
        r = _builtin_state(I, st, base, args, kw, n)
        if r is not None:
            return r
    if q in ('copy.deepcopy', 'copy.copy') and args:
        return copy_value(I, st, args[0], n, deep=q.endswith('deepcopy'))
    if q in ('functools.partial',) and args:
        fn = args[0]
        if fn.op in ('fn', 'meth', 'cls', 'ext', 'bmeth'):
            return mk('partial', fn, tuple(args[1:]), tuple(sorted(kw.items())))
    if q in ('collections.deque',):
        content = mk('list')
        if args:
            content = I.as_seq(st, I.rd(st, args[0]))
        ml = kw.get('maxlen', args[1] if len(args) > 1 else None)
        ml = I.fz(st, ml) if ml is not None else None
        if ml is NONE:
            ml = None
        if ml is not None and args:
            content = tm.lastn(content, ml)
        return I.alloc(st, n, _cell('deque', content, maxlen=ml), 'deque')
    if q in ('collections.OrderedDict', 'collections.defaultdict', 'collections.Counter'):
        return I.newlist(st, n, mk('dict0'), kind='dict', tag='dict')
    if q in ('heapq.heappush', 'bisect.insort', 'bisect.insort_left', 'bisect.insort_right') and len(args) == 2:
        v = args[1]
        x = I.fz(st, v)
        I.mutate(st, args[0], lambda c: bagadd(c, v if v.op == 'ref' else x), 'heappush')
        return NONE
    if q == 'heapq.heapify' and args:
        return NONE
    if q == 'heapq.heappop' and args:
        c = I.fz(st, args[0])
        m = tm.mkl('call', 'min', (bagstrip(c),), ())
        I.mutate(st, args[0], lambda t: bagdel(t, m), 'heappop')
        return m
    if q in ('heapq.heapreplace', 'heapq.heappushpop') and len(args) == 2:
        c = I.fz(st, args[0])
        x = I.fz(st, args[1])
        I.mutate(st, args[0], lambda t: mk('opaque_bag', t, x), 'heapreplace')
        return mk('opaque', q, c)
    # ---------------- randomness and time
    if root == 'random' or q.startswith('numpy.random.') or q.startswith('jax.random.') or q.startswith('secrets.'):
        return rng_call(I, st, q, base, args, kw, n)
    if q in NONDET:
        I.event(st, 'nondet', name=q, args=tuple(I.fz(st, a) for a in args))
        return tm.mkl('call', q, tuple(I.fz(st, a) for a in args), ())
    if q in ('numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.fill_diagonal', 'numpy.putmask') and args:
        fa = tuple(I.fz(st, a) for a in args[1:])
        I.mutate(st, args[0], lambda c: tm.mkl('call', q, (c,) + fa, ()), base)
        return NONE
    if root == 'numpy' and base == 'random':
        return mk('ext', q)
    if q in COPYLESS and args and args[0].op == 'ite' and any(x.op in ('ref', 'view') for x in tm.leaves(args[0])):
        return I.dispatch(st, args[0], lambda s, b: ext_call(I, s, name, [b] + list(args[1:]), kw, n))
    fargs = [I.fz(st, a) for a in args]
    fkw = {k: I.fz(st, v) for k, v in kw.items()}
    if 'out' in kw and kw['out'] is not NONE:
        o = kw['out']
        fk = dict(fkw)
        fk.pop('out')
        r = call(q, fargs, fk)
        I.mutate(st, o, lambda c: r, 'out=')
        return o
    if q in COPYLESS and args \
            and args[0].op in ('ref', 'view'):
        k = I.kind_of(st, args[0])
        copyless = q != 'numpy.array' or (kw.get('copy') is FALSE)
        if copyless and k in ('arr', 'any', 'opaque'):
            b = args[0]
            r = b if b.op == 'ref' else b.args[0]
            d = fkw.get('dtype', fargs[1] if len(fargs) > 1 and base != 'reshape' else None)
            if r.op == 'ref' and (d is None or _isfloat(d)):
                if base in ('ravel',):
                    p = ('ravel',)
                elif base == 'reshape':
                    p = ('reshape',) + tuple(fargs[1:])
                elif base == 'transpose':
                    p = ('T',)
                elif base == 'squeeze':
                    p = ('fn', 'numpy.squeeze', (), ())
                else:
                    p = ('asarray',)
                nr = mk('ref', r.args[0], r.args[1], r.args[2] + (p,))
                if b.op == 'view':
                    return I.mkview(st, nr, I.apply_path(I.viewval(st, b), p))
                return nr
    if root == 'numpy' and base in ALLOCS:
        d = narrow(fkw.get('dtype', fargs[ALLOCS[base]] if len(fargs) > ALLOCS[base] else None))
        if d is not None:
            r = call(q, fargs, fkw)
            I.event(st, 'ext', name=q, args=tuple(fargs), kw=_kwt(fkw))
            return I.alloc(st, n, _cell('arr', r, dtype=d), 'box')
    if root == 'math' or root == 'numpy' or root == 'builtins':
        r = call(q, fargs, fkw)
        I.event(st, 'ext', name=q, args=tuple(fargs), kw=_kwt(fkw))
        return r
    I.event(st, 'ext', name=q, args=tuple(fargs), kw=_kwt(fkw))
    if base[:1].isupper() or base in ('seasonal_decompose',):
        # construction of an external object
        if base.endswith('Error') or base.endswith('Warning') or base == 'Exception':
            return mk('excv', base)
        return I.alloc(st, n, _cell('opaque', tm.mkl('call', q, tuple(strip_l(a) for a in fargs), _kwt(fkw))), 'ext')
    return call(q, fargs, fkw)


ALLOCS = {'zeros': 1, 'ones': 1, 'empty': 1, 'full': 2, 'zeros_like': 1, 'ones_like': 1, 'empty_like': 1, 'full_like': 2, 'array': 1, 'asarray': 1}


def _cell(kind, content, maxlen=None, dtype=None):
    from .interp import Cell
    return Cell(kind, content=content, maxlen=maxlen, dtype=dtype)


RNG_SIG = {'randint': ('low', 'high', 'size'), 'uniform': ('low', 'high', 'size'), 'normal': ('loc', 'scale', 'size'),
           'choice': ('a', 'size', 'replace', 'p'), 'binomial': ('n', 'p', 'size')}
RNG_ALIAS = {'rand': ('uniform', ()), 'random': ('uniform', ()), 'random_sample': ('uniform', ()), 'ranf': ('uniform', ()), 'randn': ('normal', ()), 'standard_normal': ('normal', ())}
RNG_DEF = {'uniform': {'low': tm.ZERO, 'high': tm.num(1)}, 'normal': {'loc': tm.ZERO, 'scale': tm.num(1)},
           'choice': {'replace': tm.TRUE, 'p': NONE}}


def rng_norm(base, fa, fk):
    """one argument form per generator call (randint(k) = randint(0, k) ...)"""
    sig = RNG_SIG.get(base)
    if sig is None or len(fa) > len(sig):
        return fa, fk
    d = dict(zip(sig, fa))
    d.update(dict(fk))
    if base == 'randint' and d.get('high', NONE) is NONE and 'low' in d:
        d['high'], d['low'] = d['low'], tm.ZERO
    for n, v in RNG_DEF.get(base, {}).items():
        d.setdefault(n, v)
    d = {n: v for n, v in d.items() if not (n in ('size', 'p') and v is NONE)}
    return (), tuple(sorted(d.items(), key=lambda p: p[0]))


def _ks(I):
    return tuple(k for k, n in I.loops) + tuple(I.recpath)


def rng_call(I, st, q, base, args, kw, n):
    fa = tuple(I.fz(st, a) for a in args)
    fk = _kwt({k: I.fz(st, v) for k, v in kw.items()})
    if base in ('seed', 'set_state', 'setstate'):
        I.event(st, 'seed', name=q, args=fa, kw=fk)
        c = st.heap.get('rng$' + q.split('.')[0])
        if c is not None:
            a = fa[0] if fa else fk[0][1] if fk else NONE
            st.heap['rng$' + q.split('.')[0]] = c.rep(content=mk('tuple', a))
        return NONE
    if base in ('RandomState', 'default_rng', 'Random', 'SystemRandom', 'Generator', 'PRNGKey', 'key', 'SeedSequence', 'PCG64', 'MT19937'):
        I.event(st, 'rngnew', name=q, args=fa, kw=fk)
        return I.alloc(st, n, _cell('opaque', tm.mkl('call', q, fa, fk)), 'rng')
    if base == 'shuffle':
        I.event(st, 'rng', name=q, args=fa, kw=fk)
        g = _seeded(st, q)
        I.mutate(st, args[0], lambda c: tm.mkl('perm', strip_l(c), *g), 'shuffle')
        return NONE
    I.event(st, 'rng', name=q, args=fa, kw=fk)
    if q.startswith('numpy.') and base in RNG_ALIAS and (base not in ('rand', 'randn') or not fk):
        nb, names = RNG_ALIAS[base]
        if base in ('rand', 'randn'):
            sz = () if not fa else (('size', fa[0] if len(fa) == 1 else mk('tuple', *fa)),)
            fa, fk = (), sz
        elif fa:
            fa, fk = (), fk + (('size', fa[0]),)
        base, q = nb, q[:len(q) - len(base)] + nb
    fa, fk = rng_norm(base, fa, fk)
    return tm.mkl('rng', q, fa, fk + tuple(('$seed', x) for x in _seeded(st, q)), _ks(I))


def _seeded(st, q):
    c = st.heap.get('rng$' + q.split('.')[0])
    return () if c is None or c.content is NONE else (c.content,)


def bagadd(c, x):
    def f(a, b):
        a = bagstrip(a)
        if a.op == 'bagdel' and a.args[1] is b:
            return a.args[0]
        return mk('bagadd', a, b)
    return lift(f, c, x)


def bagdel(c, x):
    def f(a, b):
        a = bagstrip(a)
        if a.op == 'bagadd' and a.args[1] is b:
            return a.args[0]
        if a.op == 'cat' and a.args[-1].op == 'list' and a.args[-1].args and a.args[-1].args[-1] is b:
            return take(a, sub(length(a), ONE))
        return mk('bagdel', a, b)
    return lift(f, c, x)


def copy_value(I, st, v, n, deep):
    def go(s, x):
        if x.op == 'ref':
            c = s.heap[x.args[0]]
            if c.kind == 'inst':
                fields = {}
                r = I.alloc(s, n, c.rep(fields={}, origin='fresh', name=None), 'copy:' + x.args[0])
                for f, fv in c.fields.items():
                    fv = I._atsub(c, x, fv)
                    fields[f] = copy_value(I, s, fv, n, deep) if deep else fv
                s.heap[r.args[0]] = s.heap[r.args[0]].rep(fields=fields)
                return r
            t = I.content(s, x)
            if deep:
                t = I.fz(s, t)
            return I.alloc(s, n, c.rep(content=t, origin='fresh', name=None, kind=c.kind), 'copy:' + x.args[0])
        if x.op == 'view':
            return I.alloc(s, n, _cell('arr', I.viewval(s, x)), 'copyv')
        return x
    return I.dispatch(st, v, go)


def _builtin_state(I, st, base, args, kw, n):
    if base in ('print', 'warn'):
        return NONE
    if base == 'list':
        if not args:
            return I.newlist(st, n, mk('list'), tag='list()')
        d = I.iter_desc(st, args[0])
        if d is None:
            return None
        k = fresh()
        x = d[2]
        I.setorder(st, x)
        return I.newlist(st, n, x, tag='list()')
    if base == 'tuple':
        if not args:
            return mk('tuple')
        x = I.as_seq(st, I.rd(st, args[0]))
        I.setorder(st, x)
        def f(y):
            if y.op == 'list':
                return mk('tuple', *y.args)
            return mk('call', 'tuple', (I.fz(st, y),), ())
        return lift(f, x)
    if base == 'dict':
        t = mk('dict0')
        if args:
            t = I.rd(st, args[0])
        for k in sorted(kw):
            if k == '**':
                t = mk('dupd', t, I.fz(st, kw[k])) if t.op != 'dict0' else I.rd(st, kw[k])
            else:
                t = store(t, strc(k), kw[k])
        return I.newlist(st, n, t, kind='dict', tag='dict()')
    if base in ('set', 'frozenset'):
        t = mk('setv') if not args else tm.mkl('setof', strip_l(I.fz(st, args[0])))
        return I.newlist(st, n, t, kind='set', tag='set()')
    if base == 'enumerate' and args:
        d = I.iter_desc(st, args[0])
        if d is None:
            return None
        cnt, elem, x = d
        I.setorder(st, x)
        start = kw.get('start', args[1] if len(args) > 1 else ZERO)
        start = I.fz(st, start)
        def mk1(y):
            k = fresh()
            if x.op == 'ite' or y is not x:
                e = tm.index(y, k)
                c = length(I.fz(st, y))
            else:
                e = elem(k)
                c = cnt
            return mapseq(c, k, mk('tuple', add(start, k), e))
        if x.op == 'ite':
            return lift(mk1, x)
        return mk1(x)
    if base == 'zip' and args:
        ds = [I.iter_desc(st, a) for a in args]
        if any(d is None for d in ds):
            return None
        cnt = ds[0][0]
        for d in ds[1:]:
            c2 = d[0]
            if c2 is not cnt:
                cnt = lift(lambda x, y: ite(cmp_ge(y, x), x, y), cnt, c2)
        k = fresh()
        return mapseq(cnt, k, mk('tuple', *[d[1](k) for d in ds]))
    if base == 'reversed' and args:
        d = I.iter_desc(st, args[0])
        if d is None:
            return None
        return reversed_(d[2])
    if base in ('iter',) and len(args) == 1:
        return args[0]
    if base == 'next' and args:
        d = I.iter_desc(st, args[0])
        if d is not None:
            return d[1](ZERO)
        return None
    if base in ('map', 'filter') and len(args) >= 2:
        ds = [I.iter_desc(st, a) for a in args[1:]]
        if any(d is None for d in ds):
            return None
        k = fresh()
        cnt = ds[0][0]
        I.loops.append((k, cnt))
        try:
            v = I.call(st, args[0], [d[1](k) for d in ds], {}, n)
        finally:
            I.loops.pop()
        v = I.fz(st, v) if I.kind_of(st, v) != 'inst' else v
        if base == 'map':
            return mapseq(cnt, k, v)
        return bind('filter', cnt, k, (asbool(v), ds[0][1](k)))
    if base == 'hasattr' and len(args) == 2 and args[1].op == 'str':
        nm = args[1].args[0]
        def go(s, b):
            if b.op == 'ref':
                c = s.heap.get(b.args[0])
                if c is not None and c.kind == 'inst':
                    v = c.fields.get(nm)
                    if v is not None:
                        from .interp import UNSET
                        lv = tm.leaves(v)
                        if UNSET not in lv:
                            if v.op == 'sym' and ('maybe_unset' in v.args[0]):
                                return mk('hasattr', v, nm)
                            return TRUE
                        return lift(lambda z: FALSE if z is UNSET else TRUE, v)
                    if I.prog.find_method(c.cls, nm):
                        return TRUE
                    if c.name:
                        return mk('hasattr', mk('obj', c.name, b.args[1]), nm)
                    return FALSE
            return mk('hasattr', I.fz(s, b), nm)
        return I.dispatch(st, args[0], go)
    if base == 'getattr' and len(args) >= 2 and args[1].op == 'str':
        return I.getattr(st, args[0], args[1].args[0], n)
    if base == 'setattr' and len(args) == 3 and args[1].op == 'str':
        I.setattr(st, args[0], args[1].args[0], args[2], n)
        return NONE
    if base == 'slice':
        a = [I.fz(st, x) for x in args]
        return mk('call', 'slice', tuple(a), ())
    if base == 'isinstance' and len(args) == 2:
        a = args[0]
        if a.op == 'ref' and I.kind_of(st, a) == 'inst' and args[1].op == 'cls':
            c = I.cell(st, a).cls
            return TRUE if I.prog.classes[args[1].args[0]] in I.prog.mro(c) else FALSE
        if a.op == 'ref' and I.kind_of(st, a) in ('list', 'deque', 'dict', 'set') and args[1].op == 'ext':
            return TRUE if args[1].args[0].split('.')[-1] == I.kind_of(st, a) else FALSE
    if base in ('staticmethod', 'classmethod', 'property') and args:
        return args[0]
    if base.endswith('Error') or base.endswith('Exception') or base.endswith('Warning'):
        return mk('excv', base)
    if base == 'object':
        return mk('opaque', 'object')
    if base.startswith('object.') or base == '__init__':
        return NONE
    if base in ('len',) and args:
        a = args[0]
        def go(s, b):
            if b.op == 'ref' and I.kind_of(s, b) == 'inst':
                f = I.prog.find_method(I.cell(s, b).cls, '__len__')
                if f:
                    return I.call_func(s, f, [b], {}, n)
                return mk('opaque', 'len')
            return call('builtins.len', [I.fz(s, b)], {})
        return I.dispatch(st, a, go)
    return None


LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'appendleft', 'popleft', 'extendleft', 'rotate'}
DICT_M = {'get', 'items', 'keys', 'values', 'setdefault', 'update', 'pop', 'clear', 'copy', 'popitem'}
def isnan_(x):
    return lift(lambda v: mk('call', 'isnan', (v,), ()), x)


NP_PURE = {'mean', 'std', 'var', 'sum', 'min', 'max', 'dot', 'any', 'all', 'argmax', 'argmin', 'prod', 'cumsum', 'round', 'nonzero', 'argsort', 'ptp', 'clip', 'take', 'trace', 'repeat', 'searchsorted'}
OPAQUE_PURE = {'predict', 'decision_function', 'score_samples', 'transform', 'codisp', 'find_duplicate', 'get_params', 'get', 'stream', 'predict_proba',
               'score_partial', 'transform_partial', 'score', 'disp', 'inverse_transform', 'pre_order', 'get_left', 'get_right', 'to_numpy', 'tolist', 'item',
               'ppf', 'cdf', 'sf', 'isf', 'pdf', 'logcdf', 'entropy', 'startswith', 'endswith', 'format', 'join', 'split', 'strip', 'lower', 'upper', 'encode', 'copy'}
NP_INPLACE = {'fill', 'sort', 'partition', 'put', 'resize', 'itemset', 'setfield', 'byteswap'}


def method_call(I, st, base, name, args, kw, n):
    def go(s, b):
        return _method(I, s, b, name, args, kw, n)
    return I.dispatch(st, base, go)


def _method(I, st, b, name, args, kw, n):
    if b.op == 'undef':
        return UNDEF
    kind = I.kind_of(st, b)
    if b.op == 'ref' and kind == 'inst':
        v = I.getattr(st, b, name, n)
        return I.call(st, v, args, kw, n)
    x = I.rd(st, b)
    if x.op == 'ref' and x is not b and I.kind_of(st, x) == 'inst':
        v = I.getattr(st, x, name, n)
        return I.call(st, v, args, kw, n)
    isref = b.op in ('ref', 'view')
    if kind in ('list', 'deque', 'any') and name in LIST_MUT and isref:
        return list_method(I, st, b, x, kind, name, args, kw, n)
    if kind == 'dict' and name in DICT_M:
        return dict_method(I, st, b, x, name, args, kw, n)
    if kind == 'set' and name in ('add', 'discard', 'remove', 'update', 'clear', 'pop'):
        fa = tuple(I.fz(st, a) for a in args)
        I.mutate(st, b, lambda c: tm.mkl('setop', name, c, fa), name)
        return NONE
    if kind in ('list', 'deque', 'set') and name == 'copy':
        return I.newlist(st, n, x, kind=kind, tag='copy')
    if kind in ('list', 'deque') and name in ('index', 'count'):
        return tm.mkl('call', 'list.' + name, (I.fz(st, x),) + tuple(I.fz(st, a) for a in args), ())
    fx = I.fz(st, x)
    fargs = [I.fz(st, a) for a in args]
    fkw = {k: I.fz(st, v) for k, v in kw.items()}
    if kind == 'opaque' or fx.op in ('new', 'after', 'mcall') or (fx.op == 'call' and fx.args[0].split('.')[-1][:1].isupper()):
        return opaque_method(I, st, b, fx, name, fargs, fkw, n, isref)
    if kind in ('arr', 'any') and name in NP_INPLACE and isref:
        fa = tuple(fargs)
        I.mutate(st, b, lambda c: tm.mkl('call', 'ip.' + name, (c,) + fa, _kwt(fkw)) if name != 'fill' else mul(alloc('ones', length(strip_l(c))), fa[0]), name)
        return NONE
    if name == 'copy':
        return I.alloc(st, n, _cell('arr', fx), 'copy')
    if name in ('reshape', 'ravel', 'squeeze', 'swapaxes', 'transpose', 'view') and isref:
        r = b if b.op == 'ref' else b.args[0]
        if name == 'reshape':
            p = ('reshape',) + tuple(fargs)
        elif name == 'ravel':
            p = ('ravel',)
        elif name == 'transpose' and not args:
            p = ('T',)
        else:
            p = ('fn', 'numpy.' + name, tuple(fargs), _kwt(fkw))
        nr = mk('ref', r.args[0], r.args[1], r.args[2] + (p,))
        if b.op == 'view':
            return I.mkview(st, nr, I.apply_path(fx, p))
        return nr
    if name == 'reshape':
        return reshape(fx, fargs)
    if name in ('ravel', 'flatten'):
        return ravel(fx)
    if name == 'squeeze':
        return tm.mkl('call', 'squeeze', (strip_l(fx),), _kwt(fkw))
    if name in ('item', 'tolist', 'to_numpy', 'toarray') and not args:
        if name in ('item', 'tolist'):
            return fx
        return tm.mkl('call', name, (fx,), ())
    if name == 'astype' and fargs:
        if _isfloat(fargs[0]):
            return fx
        return tm.mkl('call', 'astype', (strip_l(fx), narrow(fargs[0]) or fargs[0]), ())
    if name in NP_PURE:
        I.event(st, 'ext', name='numpy.' + name, args=(fx,) + tuple(fargs), kw=_kwt(fkw))
        return call('numpy.' + name, [fx] + fargs, fkw)
    if name in ('randint', 'uniform', 'normal', 'binomial', 'permutation', 'choice', 'rand', 'randn', 'shuffle'):
        I.event(st, 'rngm', name=name, gen=fx, args=tuple(fargs), kw=_kwt(fkw))
        a2, k2 = rng_norm(name, tuple(fargs), _kwt(fkw))
        return tm.mkl('rng', name, (fx,) + a2, k2, _ks(I))
    if name in OPAQUE_PURE or not isref or kind in ('arr', 'any', 'sym'):
        if kind == 'any' and isref and name not in OPAQUE_PURE and name not in ('T',):
            I.event(st, 'anymeth', name=name, base=fx)
        return tm.mkl('mcall', fx, name, tuple(fargs), _kwt(fkw))
    return opaque_method(I, st, b, fx, name, fargs, fkw, n, isref)


def opaque_method(I, st, b, fx, name, fargs, fkw, n, isref):
    I.event(st, 'omcall', obj=fx, name=name, args=tuple(fargs), kw=_kwt(fkw), ref=b)
    isrng = any(y.op == 'call' and y.args[0].split('.')[-1] in ('RandomState', 'default_rng', 'Random', 'SystemRandom') for y in tm.walk(fx))
    if isrng and fx.op != 'new':
        I.event(st, 'rngm', name=name, gen=fx, args=tuple(fargs), kw=_kwt(fkw))
        if isref:
            I.mutate(st, b, lambda c: tm.mkl('after', c, name, tuple(fargs), _kwt(fkw)), 'rng.' + name)
        a2, k2 = rng_norm(name, tuple(fargs), _kwt(fkw))
        return tm.mkl('rng', name, a2, k2, _ks(I))
    if name in OPAQUE_PURE:
        return tm.mkl('mcall', fx, name, tuple(fargs), _kwt(fkw))
    if isref:
        I.mutate(st, b, lambda c: tm.mkl('after', c, name, tuple(fargs), _kwt(fkw)), 'call.' + name)
        if name in ('fit', 'partial_fit', 'fit_partial', 'update', 'remove'):
            return b
        return tm.mkl('mcall', fx, name, tuple(fargs), _kwt(fkw))
    if name in ('fit', 'partial_fit', 'fit_partial', 'update', 'remove'):
        return I.alloc(st, n, _cell('opaque', tm.mkl('after', fx, name, tuple(fargs), _kwt(fkw))), 'after')
    return tm.mkl('mcall', fx, name, tuple(fargs), _kwt(fkw))


def list_method(I, st, b, x, kind, name, args, kw, n):
    if name == 'append':
        v = I.box(st, args[0], n, 'appended')
        I.mutate(st, b, lambda c: cat(strip_l(c), seqlist(v)), 'append')
        return NONE
    if name == 'appendleft':
        v = I.box(st, args[0], n, 'appended')
        def al(c):
            r = cat(seqlist(v), c)
            return r
        I.mutate(st, b, al, 'appendleft')
        return NONE
    if name == 'extend':
        v = I.as_seq(st, I.rd(st, args[0]))
        if v.op == 'setof' or kind == 'any':
            pass
        I.mutate(st, b, lambda c: cat(c, v), 'extend')
        return NONE
    if name == 'insert':
        i = I.fz(st, args[0])
        v = I.box(st, args[1], n, 'inserted')
        def ins(c):
            def f(y, j):
                if j is ZERO:
                    return cat(seqlist(v), y)
                if j is length(y):
                    return cat(y, seqlist(v))
                return cat(take(y, j), seqlist(v), drop(y, j))
            return lift(f, c, i)
        I.mutate(st, b, ins, 'insert')
        return NONE
    if name in ('pop', 'popleft'):
        i = ZERO if name == 'popleft' else (I.fz(st, args[0]) if args else num(-1))
        r = lift(lambda y: index(y, i), x)
        I.mutate(st, b, lambda c: delete_at(c, i), 'pop')
        if r.op not in ('ref', 'ite') and not tm.is_num(r):
            return r
        return r
    if name == 'remove':
        v = I.fz(st, args[0])
        I.mutate(st, b, lambda c: bagdel(c, v), 'remove')
        return NONE
    if name == 'clear':
        I.mutate(st, b, lambda c: mk('list'), 'clear')
        return NONE
    if name == 'sort':
        I.mutate(st, b, lambda c: tm.mkl('sorted', bagstrip(c)), 'sort')
        return NONE
    if name == 'reverse':
        I.mutate(st, b, reversed_, 'reverse')
        return NONE
    fa = tuple(I.fz(st, a) for a in args)
    I.mutate(st, b, lambda c: tm.mkl('listop', name, c, fa), name)
    return NONE


def dict_method(I, st, b, x, name, args, kw, n):
    fx = I.fz(st, x)
    if name == 'get':
        k = I.fz(st, args[0])
        d = args[1] if len(args) > 1 else NONE
        I.event(st, 'dictread', key=k, d=fx)
        c = asbool(lift(lambda p, q: contains_(p, q), k, fx))
        return ite(c, I.pure_index(x, k), d)
    if name == 'setdefault':
        k = I.fz(st, args[0])
        d = args[1] if len(args) > 1 else NONE
        c = asbool(lift(lambda p, q: contains_(p, q), k, fx))
        v = ite(c, I.pure_index(x, k), d)
        I.mutate(st, b, lambda t: ite(c, t, store(t, k, d)), 'setdefault')
        return v
    if name in ('items', 'keys', 'values'):
        return tm.mkl(name if name == 'keys' else 'call', *((fx,) if name == 'keys' else (name, (fx,), ())))
    if name == 'copy':
        return I.newlist(st, n, x, kind='dict', tag='copy')
    if name == 'update':
        fa = tuple(I.fz(st, a) for a in args)
        fk = _kwt({k: I.fz(st, v) for k, v in kw.items()})
        I.mutate(st, b, lambda c: tm.mkl('dupd', c, fa, fk), 'update')
        return NONE
    if name == 'clear':
        I.mutate(st, b, lambda c: mk('dict0'), 'clear')
        return NONE
    if name == 'pop':
        k = I.fz(st, args[0])
        r = I.pure_index(x, k)
        if len(args) > 1:
            c = asbool(lift(lambda p, q: contains_(p, q), k, fx))
            r = ite(c, r, args[1])
        I.mutate(st, b, lambda c: tm.mkl('ddel', I.fz(st, c), k), 'pop')
        return r
    fa = tuple(I.fz(st, a) for a in args)
    I.mutate(st, b, lambda c: tm.mkl('dictop', name, c, fa), name)
    return mk('opaque', name)
