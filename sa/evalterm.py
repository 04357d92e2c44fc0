"""Interpretation of normal-form terms over a small concrete domain.

Used to *separate* two terms that the normaliser could not identify (a
disequality witness for the symbolic domain, as in random interpretation).
It interprets terms only; no code of the analysed program is imported or run.

Anything the interpretation does not know raises NotEvaluable; structure that
is only partly known (numpy-like operations over an uninterpreted external
value) sets `taint`, and the caller must not conclude a difference.
"""
import math
import random as _random

import numpy as np

from . import terms as tm
from .terms import T


class NotEvaluable(Exception):
    pass


class Err(Exception):
    """the program would fail here (index out of range, ...)"""


class U:
    """Uninterpreted external value."""
    __slots__ = ('key', 'id', 'f', 'ctx')

    def __init__(self, key, id_, f):
        self.key, self.id, self.f = key, id_, f

    def __repr__(self):
        return 'U%d<%s>' % (self.id, self.key)


class Fam:
    """Indexed family (a field of every element of a list of objects)."""
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals

    def __repr__(self):
        return 'Fam%r' % (self.vals,)


class Lazy:
    """a family of values given by its element function"""
    __slots__ = ('E', 'env', 'var', 'body', 'got')

    def __init__(self, E, var, body):
        self.E, self.env, self.var, self.body, self.got = E, dict(E.env), var, body, {}

    def __call__(self, i):
        if i not in self.got:
            E = self.E
            old, E.env = E.env, dict(self.env)
            E.env[self.var] = i
            try:
                self.got[i] = E._lazy(self.body)
            finally:
                E.env = old
        return self.got[i]


def same(a, b, tol=1e-6):
    """approximate structural equality"""
    if a is b:
        return True
    if isinstance(a, U) or isinstance(b, U):
        return isinstance(a, U) and isinstance(b, U) and a.id == b.id
    if isinstance(a, Fam) and isinstance(b, Fam):
        return same(a.vals, b.vals, tol)
    if a is None or b is None:
        return False
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or len(a) != len(b):
            return False
        for k, v in a.items():
            if k not in b or not same(v, b[k], tol):
                return False
        return True
    if isinstance(a, Obj) or isinstance(b, Obj):
        return isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and same(a.fields, b.fields, tol)
    sa, sb = isinstance(a, (list, tuple, np.ndarray)), isinstance(b, (list, tuple, np.ndarray))
    if sa and sb:
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype != object and b.dtype != object:
            if a.shape != b.shape:
                return False
            return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
        if len_(a) != len_(b):
            return False
        return all(same(x, y, tol) for x, y in zip(list(a) if not _is0(a) else [a.item()], list(b) if not _is0(b) else [b.item()]))
    if sa or sb:
        # 0-d arrays and scalars
        if _is0(a):
            return same(a.item(), b, tol)
        if _is0(b):
            return same(a, b.item(), tol)
        return False
    try:
        fa, fb = float(a), float(b)
    except Exception:
        return a == b
    if fa != fa or fb != fb:
        return fa != fa and fb != fb
    if fa == fb:
        return True
    if math.isinf(fa) or math.isinf(fb):
        return False
    return abs(fa - fb) <= tol * (1 + max(abs(fa), abs(fb)))


def _is0(a):
    return isinstance(a, np.ndarray) and a.ndim == 0


def len_(a):
    if isinstance(a, np.ndarray):
        return a.shape[0] if a.ndim else 0
    return len(a)


class Obj:
    """A freshly built object of an analysed class."""
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return '%s(%r)' % (self.cls, self.fields)


def has_u(v):
    if isinstance(v, U):
        return True
    if isinstance(v, (list, tuple)):
        return any(has_u(x) for x in v)
    if isinstance(v, np.ndarray) and v.dtype == object:
        return any(has_u(x) for x in v.ravel())
    if isinstance(v, dict):
        return any(has_u(x) for x in v.values())
    return False


class _NoKey(Exception):
    pass


def exact_key(v):
    """equal keys mean equal values; (key, decides) where decides means different keys mean different values"""
    if v is None or isinstance(v, (str, bool)):
        return v, True
    if isinstance(v, (int, np.integer)):
        return float(v), True
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if f != f:
            raise _NoKey
        return f, False
    if isinstance(v, U):
        return ('u', v.id), True
    if isinstance(v, (list, tuple)):
        ks = [exact_key(x) for x in v]
        return tuple(k for k, d in ks), all(d for k, d in ks)
    if isinstance(v, np.ndarray) and v.dtype != object:
        return exact_key(v.tolist())
    raise _NoKey


def _lookup(idx, rows, args):
    """(the value recorded for equal arguments, key): exact arguments first, then arguments equal up to rounding"""
    try:
        key, decides = exact_key(args)
        if key in idx:
            return idx[key], key
        if decides:
            return None, key
    except (_NoKey, OverflowError):
        key = None
    for a, v in rows:
        if same(a, args):
            if key is not None:
                idx[key] = v
            return v, key
    return None, key


class Ctx:
    """One interpretation of the uninterpreted symbols (shared by both sides)."""

    def __init__(self, seed):
        self.rng = _random.Random(seed)
        self.seed = seed
        self.tab = {}
        self.n = 0
        self.forms = {}
        self.taint = []
        self.models = {}
        self.side, self.draws, self.ucalls = '', {}, {}
        self.shrink = {}
        self.hot, self.nan = [], False          # values worth returning from arbitrary models

    def ufun(self, name, args):
        """congruent uninterpreted function"""
        self.ucalls.setdefault(self.side, set()).add(name)
        idx, rows = self.tab.setdefault((name, len(args)), ({}, []))
        v, key = _lookup(idx, rows, args)
        if v is not None:
            return v
        self.n += 1
        r = _random.Random('%s/%s/%d' % (self.seed, name, len(rows)))
        v = U(name, self.n, None)
        v.f = r.choice([-1, 1]) * r.uniform(0.1, 3.0)
        if 'opaque.' in name and (self.hot or self.nan):
            # the score of an arbitrary model: any number at all
            r = _random.Random('%s/%s/%d' % (self.seed.rpartition('/')[0], name, len(rows)))
            z = r.random()
            if z < .1 and self.nan:
                v.f = r.choice([math.nan, math.nan, math.inf, -math.inf])
            elif z < .4 and self.hot:
                v.f = r.choice(self.hot) * r.choice([1, 1, -1, 2]) + r.choice([0, 0, 1, -1, .5, -.5])
        rows.append((args, v))
        if key is not None:
            idx[key] = v
        return v

    def draw(self, base, sized, ks, total, form):
        self.draws.setdefault(self.side, {}).setdefault((base, sized, ks), set()).add((total, form))

    def usample(self, name, args, make):
        """congruent function with a sampled (structured) result"""
        idx, rows = self.tab.setdefault((name, len(args)), ({}, []))
        v, key = _lookup(idx, rows, args)
        if v is not None:
            return v
        r = _random.Random('%s/%s/%d' % (self.seed, name, len(rows)))
        v = make(r)
        rows.append((args, v))
        if key is not None:
            idx[key] = v
        return v


def num_of(v, ctx=None):
    if isinstance(v, U):
        return v.f
    return v


def to_arr(v):
    """numeric array view of a value (lists become arrays)"""
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, U):
        raise NotEvaluable('array of uninterpreted')
    if isinstance(v, (list, tuple)):
        if has_u(v):
            return np.array([num_of(x) if not isinstance(x, (list, tuple, np.ndarray)) else to_arr(x) for x in v])
        try:
            return np.array(v, dtype=float) if not all(isinstance(x, (bool, np.bool_)) for x in v) or not v else np.array(v)
        except (ValueError, TypeError):
            return np.array(v, dtype=object)
    return v


def arith(v):
    """operand of elementwise arithmetic"""
    if isinstance(v, U):
        return v.f
    if isinstance(v, (list, tuple)):
        return to_arr(v)
    if isinstance(v, bool):
        return int(v)
    if v is None or isinstance(v, (str, dict, Obj)):
        raise Err('arithmetic on %r' % (type(v).__name__,))
    return v


def truthy(v):
    if isinstance(v, np.ndarray):
        if v.size == 1:
            return bool(v.ravel()[0])
        if v.size == 0:
            return False
        raise Err('truth of an array')
    if isinstance(v, U):
        return v.f > 0
    return bool(v)


def as_int(v):
    if isinstance(v, U):
        v = v.f
    if isinstance(v, np.ndarray):
        if v.size != 1:
            raise Err('int of array')
        v = v.ravel()[0]
    if isinstance(v, (list, tuple, dict, str)) or v is None:
        raise Err('int of %s' % type(v).__name__)
    f = float(v)
    if f != f or math.isinf(f):
        raise Err('int of nan')
    r = round(f)
    if abs(f - r) > 1e-6:
        raise Err('non-integer index/count')
    return int(r)


def keyof(v):
    """hashable dictionary key"""
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return tuple(keyof(x) for x in v)
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and math.isfinite(v) else False:
        return int(v)
    if isinstance(v, np.generic):
        return keyof(v.item())
    if isinstance(v, U):
        return ('U', v.id)
    return v


UF1 = {'exp': np.exp, 'floor': np.floor, 'ceil': np.ceil, 'tanh': np.tanh, 'cos': np.cos, 'sin': np.sin, 'log': None, 'sign': np.sign,
       'isnan': np.isnan, 'isfinite': np.isfinite, 'isinf': np.isinf, 'trunc': np.trunc, 'rint': np.rint}

STRUCT = {'transpose', 'ravel', 'reshape', 'squeeze', 'expand_dims', 'dot', 'outer', 'mean', 'median', 'sum', 'max', 'min', 'var', 'norm', 'argmax',
          'argmin', 'astype', 'where', 'argsort', 'unique', 'diff', 'cumsum', 'prod', 'clip', 'where3', 'any', 'all', 'ptp'}

_np_ok = None


def _coarse(x):
    """the loss of digits of a narrow float type, exaggerated so that the comparison's tolerance does not hide it"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            raise NotEvaluable('narrow array of objects')
        m, e = np.frexp(np.asarray(x, dtype=float))
        return np.ldexp(np.round(m * 256) / 256, e)
    x = float(x)
    if not math.isfinite(x):
        return x
    m, e = math.frexp(x)
    return math.ldexp(round(m * 256) / 256, e)


class Eval:
    def __init__(self, ctx, env, depth_limit=400):
        self.shrink = ctx.shrink if ctx.side == 'A' else None
        self.ctx = ctx
        self.env = env            # sym name -> value ; for at(): Fam
        self.memo = {}
        self.budget = 4000000
        self.kbind = None         # value of free element indices (k$..)
        self.recs = None          # name -> (parameter names, result term) of a pure recursive method
        self.recdepth = 0

    def ev(self, t):
        dep = self._dep(t)
        if dep is None:
            key = None
        elif not dep:
            key = t.dig
        else:
            env = self.env
            key = (t.dig,) + tuple(env.get(d) for d in dep)
            for x in key:
                if x.__class__ is not int and x.__class__ is not bytes and x.__class__ is not str:
                    key = None
                    break
        if key is not None:
            r = self.memo.get(key, self)
            if r is not self:
                return r
        self.budget -= 1
        if self.budget < 0:
            raise NotEvaluable('budget')
        f = getattr(self, 'e_' + t.op, None)
        if f is None:
            raise NotEvaluable(t.op)
        r = f(t)
        if key is not None:
            self.memo[key] = r
        return r

    _depmemo = {}

    def _dep(self, t):
        """bound variables mentioned; None: too many to remember values for"""
        r = Eval._depmemo.get(t.dig, 0)
        if r == 0:
            r = tuple(sorted(s.args[0] for s in tm.free_syms(t) if s.args[0][0] in '@$' or s.args[0].startswith('k$')))
            if len(r) > 3 or not t.args:
                r = None if r else ()
            Eval._depmemo[t.dig] = r
        return r

    # --- leaves
    def e_num(self, t):
        v = t.args[0]
        if self.shrink and v in self.shrink:
            return self.shrink[v]
        if self.shrink and -v in self.shrink:
            return -self.shrink[-v]
        return int(v) if v.denominator == 1 else float(v)

    def e_bool(self, t):
        return t.args[0]

    def e_str(self, t):
        return t.args[0]

    def e_none(self, t):
        return None

    def e_c(self, t):
        return float(t.args[0])

    def e_undef(self, t):
        raise Err('undefined')

    def e_unset(self, t):
        raise Err('unset attribute')

    def e_sym(self, t):
        n = t.args[0]
        if n in self.env:
            v = self.env[n]
            if isinstance(v, _Unset):
                raise Err('unset ' + n)
            return v
        if n == 'pi':
            return math.pi
        if n.startswith('k$') and self.kbind is not None:
            return self.kbind
        raise NotEvaluable('free symbol ' + n)

    def e_at(self, t):
        base, ks = t.args
        if base.op == 'sym':
            v = self.env.get(base.args[0])
            if v is None:
                raise NotEvaluable('family ' + base.args[0])
        else:
            v = self.ev(base)
        for k in ks:
            if isinstance(v, Lazy):
                v = v(as_int(self.ev(k)))
                continue
            if not isinstance(v, Fam):
                raise NotEvaluable('family shape')
            i = as_int(self.ev(k))
            if not 0 <= i < len(v.vals):
                raise Err('family index')
            v = v.vals[i]
        if isinstance(v, _Unset):
            raise Err('unset')
        return v

    def e_famv(self, t):
        return Lazy(self, self._bound(t), t.args[1][0])

    def e_obj(self, t):
        return ('obj', t.args[0])

    def e_cls(self, t):
        return ('cls', t.args[0])

    def e_ext(self, t):
        return ('ext', t.args[0])

    def e_fn(self, t):
        return ('fn', 'fn')

    def e_dict0(self, t):
        return {}

    def e_grp(self, t):
        return self.ev(t.args[0])

    def e_atom(self, t):
        return self.ev(t.args[0])

    def e_frz(self, t):
        return self.ev(t.args[0])

    def e_arr(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, U):
            return v
        return to_arr(v)

    def e_mat(self, t):
        v = self.ev(t.args[0])
        a = to_arr(v)
        rest = tuple(as_int(self.ev(x)) for x in t.args[1] if x.op != 'shaperest')
        if isinstance(a, np.ndarray) and a.ndim == 1 and a.size == 0 and rest:
            return a.reshape((0,) + rest)
        if isinstance(a, np.ndarray) and rest and a.ndim == 1 and len(rest) == 1 and a.dtype != object:
            # scalars broadcast into rows
            return np.repeat(a[:, None], rest[0], axis=1)
        return a

    # --- logic
    def e_ite(self, t):
        while t.op == 'ite':
            try:
                c = truthy(self.ev(t.args[0]))
            except Err:
                # an undefined decision may precede (in the diagram's order) the one that guards it
                try:
                    a = self.ev(t.args[1])
                except Err:
                    a = Err
                try:
                    b = self.ev(t.args[2])
                except Err:
                    b = Err
                if a is not Err and b is not Err and same(a, b):
                    return a
                raise
            t = t.args[1] if c else t.args[2]
        return self.ev(t)

    def _cmp(self, t, f):
        v = self.ev(t.args[0])
        if isinstance(v, U):
            v = v.f
        if isinstance(v, (list, tuple)):
            v = to_arr(v)
        if isinstance(v, np.ndarray):
            return f(np.where(np.abs(v.astype(float)) < 1e-11, 0.0, v))
        v = float(v)
        if abs(v) < 1e-11:
            v = 0.0
        return bool(f(v))

    def e_ge0(self, t):
        return self._cmp(t, lambda v: v >= 0)

    def e_gt0(self, t):
        return self._cmp(t, lambda v: v > 0)

    def e_eq0(self, t):
        return self._cmp(t, lambda v: v == 0)

    def e_ne0(self, t):
        return self._cmp(t, lambda v: v != 0)

    def e_eq(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.asarray(a) == np.asarray(b)
        return same(a, b)

    def e_ne(self, t):
        r = self.e_eq(t)
        return ~r if isinstance(r, np.ndarray) else not r

    def e_isnone(self, t):
        x = t.args[0]
        try:
            return self.ev(x) is None
        except Err:
            if x.op in ('sym', 'at'):
                return False
            raise

    def e_isunset(self, t):
        x = t.args[0]
        if x.op == 'sym':
            return isinstance(self.env.get(x.args[0]), _Unset)
        raise NotEvaluable('isunset')

    def e_truthy(self, t):
        return truthy(self.ev(t.args[0]))

    def e_in(self, t):
        k, d = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(d, dict):
            return keyof(k) in d
        if isinstance(d, (list, tuple, np.ndarray)):
            return any(same(k, x) for x in d)
        if isinstance(d, str) and isinstance(k, str):
            return k in d
        raise NotEvaluable('in %s' % type(d).__name__)

    def e_notin(self, t):
        return not self.e_in(t)

    def e_isinst(self, t):
        v = self.ev(t.args[0])
        n = t.args[1].args[0]
        m = {'list': list, 'tuple': tuple, 'str': str, 'dict': dict, 'ndarray': np.ndarray, 'bool': (bool, np.bool_), 'int': int, 'float': (float, np.floating)}
        r = False
        for p in n.split('|'):
            if p not in m:
                raise NotEvaluable('isinstance ' + p)
            r = r or isinstance(v, m[p])
        if isinstance(v, U):
            raise NotEvaluable('isinstance of uninterpreted')
        return r

    def e_bcall(self, t):
        v = self.ev(t.args[1])
        if isinstance(v, U):
            raise NotEvaluable('bcall')
        v = [truthy(x) for x in (v.ravel() if isinstance(v, np.ndarray) else v)]
        return any(v) if t.args[0] == 'any' else all(v)

    def e_hasattr(self, t):
        raise NotEvaluable('hasattr')

    def e_exc(self, t):
        return False

    # --- arithmetic
    def e_poly(self, t):
        tot = 0
        many = len(t.args[0]) > 1
        mag, const, last = [], 0, None
        for m, c in t.args[0]:
            if not m:
                const = float(c)
            v = int(c) if c.denominator == 1 else float(c)
            if self.shrink and not m and abs(c) in self.shrink:
                v = self.shrink[abs(c)] * (1 if c > 0 else -1)
            for a, e in m:
                x = arith(self.ev(a))
                if e != 1:
                    x = self._pow(x, e)
                v = self._bc(np.multiply, v, x)
            if many:
                mag.append(v)
                if not m:
                    last = v            # a constant is added last: it may be a guard against zero
                    continue
            tot = self._bc(np.add, tot, v)
        if last is not None:
            tot = self._bc(np.add, tot, last)
        if many:
            tot = self._rounding(tot, mag, const)
        return tot

    def _rounding(self, tot, vs, const):
        """what is left of a sum below the rounding error of its terms is zero; a little above, it decides nothing"""
        if tot.__class__ is int:
            return tot
        if isinstance(tot, np.ndarray):
            if tot.dtype == object or not tot.size:
                return tot
            with np.errstate(all='ignore'):
                m = np.zeros(tot.shape)
                for v in vs:
                    m = np.maximum(m, np.abs(v))
                bad = (tot != 0) & (np.abs(tot) < 1e-10 * m) & np.isfinite(m) & (np.abs(tot - const) > 1e-6 * abs(const))
                if np.any(bad):
                    zero = bad & (np.abs(tot) < 1e-13 * m)
                    if np.any(bad & ~zero):
                        self.ctx.taint.append('rounding')
                    tot = np.where(zero, 0.0, tot)
        elif tot != 0:
            try:
                m = max(abs(v) for v in vs)
                if abs(tot) < 1e-10 * m and m != float('inf') and abs(tot - const) > 1e-6 * abs(const):
                    if abs(tot) < 1e-13 * m:
                        return 0.0
                    self.ctx.taint.append('rounding')
            except TypeError:
                pass
        return tot

    def _bc(self, f, a, b):
        if isinstance(a, _Unset) or isinstance(b, _Unset):
            raise Err('arithmetic with an unset value')
        if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
            return a * b if f is np.multiply else a + b
        try:
            with np.errstate(all='ignore'):
                return f(a, b)
        except ValueError:
            raise Err('shape mismatch')
        except TypeError:
            raise NotEvaluable('object arithmetic')

    def _pow(self, x, e):
        with np.errstate(all='ignore'):
            if isinstance(x, np.ndarray):
                if x.dtype == object:
                    raise NotEvaluable('object power')
                return np.power(x.astype(float), float(e))
            x = float(x)
            if e < 0 and x == 0:
                return float('inf') if True else None
            if x < 0 and e.denominator != 1:
                return float('nan')
            try:
                return x ** (int(e) if e.denominator == 1 else float(e))
            except OverflowError:
                return float('inf')

    def e_pow(self, t):
        a, b = arith(self.ev(t.args[0])), arith(self.ev(t.args[1]))
        with np.errstate(all='ignore'):
            try:
                r = np.power(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
            except ValueError:
                raise Err('shape mismatch')
            return r if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else float(r)

    def e_add(self, t):
        r = arith(self.ev(t.args[0]))
        for a in t.args[1:]:
            r = self._bc(np.add, r, arith(self.ev(a)))
        return r

    def e_mul(self, t):
        r = arith(self.ev(t.args[0]))
        for a in t.args[1:]:
            with np.errstate(all='ignore'):
                r = self._bc(np.multiply, r, arith(self.ev(a)))
        return r

    def e_abs(self, t):
        return abs(arith(self.ev(t.args[0])))

    def e_maximum(self, t):
        r = np.maximum(arith(self.ev(t.args[0])), arith(self.ev(t.args[1])))
        return r if isinstance(r, np.ndarray) and r.ndim else r.item()

    def e_minimum(self, t):
        r = np.minimum(arith(self.ev(t.args[0])), arith(self.ev(t.args[1])))
        return r if isinstance(r, np.ndarray) and r.ndim else r.item()

    def e_mod_(self, t):
        a, b = arith(self.ev(t.args[0])), arith(self.ev(t.args[1]))
        if not isinstance(b, np.ndarray) and b == 0:
            raise Err('modulo by zero')
        return a % b

    def e_floordiv(self, t):
        a, b = arith(self.ev(t.args[0])), arith(self.ev(t.args[1]))
        if not isinstance(b, np.ndarray) and b == 0:
            raise Err('division by zero')
        return a // b

    def e_int(self, t):
        return int(arith(self.ev(t.args[0])))

    def e_maskand(self, t):
        return np.logical_and(self.ev(t.args[0]), self.ev(t.args[1]))

    def e_maskor(self, t):
        return np.logical_or(self.ev(t.args[0]), self.ev(t.args[1]))

    # --- sequences
    def e_list(self, t):
        return [self.ev(a) for a in t.args]

    def e_tuple(self, t):
        return tuple(self.ev(a) for a in t.args)

    def _seq(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, np.ndarray):
            return list(v) if v.ndim else [v.item()]
        if isinstance(v, U):
            raise NotEvaluable('sequence of uninterpreted')
        if isinstance(v, dict):
            return list(v)
        raise Err('not a sequence: %s' % type(v).__name__)

    def e_cat(self, t):
        parts = [self.ev(a) for a in t.args]
        if any(isinstance(p, np.ndarray) and p.ndim >= 2 for p in parts) and not any(isinstance(p, list) and a.op == 'list' for p, a in zip(parts, t.args)):
            try:
                return np.concatenate([to_arr(p) for p in parts], axis=0)
            except ValueError:
                raise Err('concatenate')
        out = []
        for p in parts:
            out += self._seq(p)
        return out

    def e_len(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, U):
            return self.ctx.usample('len', (v,), lambda r: r.randint(1, 4))
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                raise Err('len of scalar')
            return v.shape[0]
        if isinstance(v, (list, tuple, dict, str)):
            return len(v)
        raise Err('len of %s' % type(v).__name__)

    def e_drop(self, t):
        v, n = self.ev(t.args[0]), as_int(self.ev(t.args[1]))
        if isinstance(v, U):
            raise NotEvaluable('slice of uninterpreted')
        if not isinstance(v, (list, tuple, np.ndarray)):
            raise Err('slice')
        return v[n:]

    def e_take(self, t):
        v, n = self.ev(t.args[0]), as_int(self.ev(t.args[1]))
        if isinstance(v, U):
            raise NotEvaluable('slice of uninterpreted')
        if not isinstance(v, (list, tuple, np.ndarray)):
            raise Err('slice')
        return v[:n]

    def e_subseq(self, t):
        v = self.ev(t.args[0])
        lo, hi = (self.ev(x) for x in t.args[1:])
        if isinstance(v, U):
            raise NotEvaluable('slice of uninterpreted')
        return v[None if lo is None else as_int(lo):None if hi is None else as_int(hi)]

    def e_stepslice(self, t):
        v = self.ev(t.args[0])
        a = [self.ev(x) for x in t.args[1:]]
        if isinstance(v, U):
            raise NotEvaluable('slice of uninterpreted')
        return v[slice(*[None if x is None else as_int(x) for x in a])]

    def e_slice(self, t):
        return slice(*[None if x is tm.NONE else as_int(self.ev(x)) for x in t.args])

    def e_reversed(self, t):
        return self._seq(self.ev(t.args[0]))[::-1]

    def e_sorted(self, t):
        v = self._seq(self.ev(t.args[0]))
        try:
            return sorted(v, key=lambda x: num_of(x) if not isinstance(x, (list, tuple)) else x)
        except (ValueError, TypeError):
            raise NotEvaluable('sort')

    def e_setof(self, t):
        out = []
        for x in self._seq(self.ev(t.args[0])):
            if not any(same(x, y) for y in out):
                out.append(x)
        try:
            return sorted(out, key=num_of)
        except (ValueError, TypeError):
            return out

    def e_bagadd(self, t):
        return self._seq(self.ev(t.args[0])) + [self.ev(t.args[1])]

    def e_bagdel(self, t):
        v = self._seq(self.ev(t.args[0]))
        x = self.ev(t.args[1])
        for i, y in enumerate(v):
            if same(x, y):
                return v[:i] + v[i + 1:]
        raise Err('remove of an absent item')

    def e_rep(self, t):
        return self._seq(self.ev(t.args[0])) * as_int(self.ev(t.args[1]))

    def e_perm(self, t):
        return self._perm(self._seq(self.ev(t.args[0])), self.ev(t.args[1]) if len(t.args) > 1 else None)

    def _perm(self, v, seed=None):
        self.ctx.draw('perm', False, 0, 1, '')
        # the drawn order is a function of the seed and the number of items alone
        order = self.ctx.usample('perm', (len(v), seed), lambda r: r.sample(range(len(v)), len(v)))
        return [v[i] for i in order]

    def e_keys(self, t):
        return list(self.ev(t.args[0]))

    def e_rangestep(self, t):
        return list(range(*[as_int(self.ev(a)) for a in t.args]))

    def e_shape(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, U):
            return self.ctx.ufun('shape', (v,))
        v = to_arr(v)
        return tuple(v.shape) if isinstance(v, np.ndarray) else ()

    def e_shaperest(self, t):
        v = to_arr(self.ev(t.args[0]))
        return tuple(v.shape[1:]) if isinstance(v, np.ndarray) else ()

    def e_alloc(self, t):
        kind, n, rest = t.args
        dims = [as_int(self.ev(n))]
        for r in rest:
            v = self.ev(r)
            if isinstance(v, tuple):
                dims += [as_int(x) for x in v]
            else:
                dims.append(as_int(v))
        if any(d < 0 for d in dims):
            raise Err('negative dimension')
        return np.ones(dims) if kind == 'ones' else np.zeros(dims)

    def _index(self, v, i):
        if isinstance(i, Obj) and i.cls == 'labels':
            if isinstance(v, np.ndarray) and v.shape != i.fields['$of'].shape:
                raise Err('the row labels of another frame')
            raise NotEvaluable('row labels')
        if isinstance(v, dict):
            k = keyof(i)
            if k not in v:
                raise Err('key error')
            return v[k]
        if isinstance(v, U):
            if isinstance(i, np.ndarray):
                i = i.tolist()
            return self.ctx.ufun('getitem', (v, repr(i) if isinstance(i, slice) else i))
        if isinstance(v, (list, tuple)):
            if isinstance(i, (np.ndarray, tuple)) or (isinstance(i, list)):
                v = to_arr(v)
            elif isinstance(i, slice):
                return v[i]
            else:
                try:
                    return v[as_int(i)]
                except IndexError:
                    raise Err('index out of range')
        if isinstance(v, np.ndarray):
            try:
                return v[self._ix(i)]
            except (IndexError, ValueError):
                raise Err('index out of range')
        if isinstance(v, str):
            raise NotEvaluable('string index')
        raise Err('index of %s' % type(v).__name__)

    def _ix(self, i):
        if isinstance(i, tuple):
            return tuple(self._ix(x) for x in i)
        if isinstance(i, slice) or i is None:
            return i
        if isinstance(i, list):
            i = np.array(i) if i else np.array([], dtype=int)
        if isinstance(i, np.ndarray):
            if i.dtype == bool:
                return i
            return i.astype(int)
        if isinstance(i, (bool, np.bool_)):
            return bool(i)
        return as_int(i)

    def e_idx(self, t):
        return self._index(self.ev(t.args[0]), self.ev(t.args[1]))

    def _store(self, v, i, w):
        if isinstance(v, dict):
            d = dict(v)
            d[keyof(i)] = w
            return d
        if isinstance(v, U):
            self.ctx.taint.append('store into uninterpreted')
            return self.ctx.ufun('store', (v, i if not isinstance(i, slice) else repr(i), w))
        if isinstance(v, list):
            if isinstance(i, (np.ndarray, tuple, slice)):
                v = to_arr(v)
            else:
                v = list(v)
                try:
                    v[as_int(i)] = w
                except IndexError:
                    raise Err('store out of range')
                return v
        if isinstance(v, np.ndarray):
            w = num_of(w) if not isinstance(w, (list, tuple)) else to_arr(w)
            try:
                v = v.astype(float) if v.dtype != object else v.copy()
                v = v.copy()
                v[self._ix(i)] = w
                return v
            except (IndexError, ValueError):
                raise Err('store out of range/shape')
            except TypeError:
                raise Err('store of a non-number')
        raise Err('store into %s' % type(v).__name__)

    def e_store(self, t):
        return self._store(self.ev(t.args[0]), self.ev(t.args[1]), self.ev(t.args[2]))

    e_sstore = e_store

    def e_fill(self, t):
        v, w = to_arr(self.ev(t.args[0])), self.ev(t.args[1])
        r = np.array(v, dtype=float)
        r[...] = num_of(w)
        return r

    def e_setv(self, t):
        return sorted((self.ev(a) for a in t.args), key=repr)

    def e_dupd(self, t):
        d = self.ev(t.args[0])
        e = self.ev(t.args[1])
        if isinstance(d, dict) and isinstance(e, dict):
            r = dict(d)
            r.update(e)
            return r
        return self.ctx.ufun('dupd', (d, e))

    # --- binders
    def _bound(self, t):
        return tm.binder_var(t).args[0]

    def _range(self, t):
        n = as_int(self.ev(t.args[0]))
        if n > 3000:
            raise NotEvaluable('long loop')
        return range(max(0, n))

    def _over(self, t, f):
        v = self._bound(t)
        old = self.env.get(v, self)
        out = []
        try:
            for i in self._range(t):
                self.env[v] = i
                r = f()
                if r is _STOP:
                    break
                out.append(r)
        finally:
            if old is self:
                self.env.pop(v, None)
            else:
                self.env[v] = old
        return out

    def e_map(self, t):
        return self._over(t, lambda: self.ev(t.args[1][0]))

    def e_sum(self, t):
        tot = 0
        for x in self._over(t, lambda: arith(self.ev(t.args[1][0]))):
            tot = self._bc(np.add, tot, x)
        return tot

    def e_count(self, t):
        return sum(1 for x in self._over(t, lambda: truthy(self.ev(t.args[1][0]))) if x)

    def e_any(self, t):
        return any(self._over(t, lambda: truthy(self.ev(t.args[1][0]))))

    def e_filter(self, t):
        out = []

        def f():
            if truthy(self.ev(t.args[1][0])):
                out.append(self.ev(t.args[1][1]))
        self._over(t, f)
        return out

    def e_first(self, t):
        res = []

        def f():
            if truthy(self.ev(t.args[1][0])):
                res.append(self.ev(t.args[1][1]))
                return _STOP
        self._over(t, f)
        if not res:
            raise Err('first')
        return res[0]

    def e_stores(self, t):
        cur = [self.ev(t.args[2][0])]

        def f():
            i = self.ev(t.args[1][0])
            if tm.sym('$elem') in tm.syms(t.args[1][1]):
                self.env['$elem'] = self._index(cur[0], i)
            w = self.ev(t.args[1][1])
            cur[0] = self._store(cur[0], i, w)
        self._over(t, f)
        return cur[0]

    def _fold(self, t, brk=False, cond=False):
        n, bodies, inits = t.args
        v = self._bound(t)
        h = v[1:]
        names = ['@%s.%d' % (h, j) for j in range(len(inits))]
        vals = [self._lazy(x) for x in inits]
        saved = {x: self.env.get(x, self) for x in names + [v]}
        extra = list(bodies[len(inits):])
        try:
            i = 0
            N = 3000 if cond else as_int(self.ev(n))
            if N > 3000:
                raise NotEvaluable('long loop')
            while i < N:
                self.env[v] = i
                for nm, x in zip(names, vals):
                    self.env[nm] = x
                if cond and not truthy(self.ev(extra[0])):
                    break
                stop = brk and any(truthy(self.ev(e)) for e in (extra[1:] if cond else extra))
                vals = [self._lazy(b) for b in bodies[:len(inits)]]
                i += 1
                if stop:
                    break
            else:
                if cond:
                    raise NotEvaluable('while did not finish')
        finally:
            for nm, x in saved.items():
                if x is self:
                    self.env.pop(nm, None)
                else:
                    self.env[nm] = x
        r = vals[0]
        if isinstance(r, _Unset):
            raise Err('unset')
        return r

    def _lazy(self, t):
        try:
            return self.ev(t)
        except Err:
            return UNSETV

    def e_fold(self, t):
        return self._fold(t)

    def e_foldb(self, t):
        return self._fold(t, brk=True)

    def e_whilef(self, t):
        return self._fold(t, brk=len(t.args[1]) > len(t.args[2]) + 1, cond=True)

    def e_each(self, t):
        n, k = as_int(self.ev(t.args[0])), as_int(self.ev(t.args[1]))
        return self.ev(t.args[3]) if k < n else self.ev(t.args[2])

    # --- objects
    def e_new(self, t):
        cls, fs = t.args[0], t.args[1]
        if isinstance(cls, T):
            args = tuple(self.ev(a) for a in t.args[1])
            kw = tuple((k, self.ev(v)) for k, v in t.args[2])
            kw = tuple(x for x in kw if not (x[0] == '**' and isinstance(x[1], dict) and not x[1]))
            return self.ctx.ufun('new', (self.ev(cls), args, tuple(x for p in kw for x in p)))
        d = {}
        for k, v in fs:
            try:
                d[k] = self.ev(v)
            except Err:
                d[k] = None
        return Obj(str(cls), d)

    def e_setfld(self, t):
        return self.ctx.ufun('setfld', (self.ev(t.args[0]), str(t.args[1]), self.ev(t.args[2])))

    def e_plus(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, list) and isinstance(b, list):
            return a + b
        if isinstance(a, (int, float, np.ndarray)) and isinstance(b, (int, float, np.ndarray)):
            return a + b
        raise NotEvaluable('sum of unlike values')

    def e_rec(self, t):
        name, args, kw = t.args
        f = self.recs(str(name)) if self.recs else None
        if f is None:
            raise NotEvaluable('recursive call of ' + str(name))
        params, body = f
        if self.recdepth > 40 or len(args) > len(params):
            raise NotEvaluable('recursion depth')
        env = {}
        for p, a in list(zip(params, args))[1:]:
            env[p] = self.ev(a)
        for k, a in kw:
            env[k] = self.ev(a)
        if set(env) != set(params[1:]):
            raise NotEvaluable('recursive call form')
        E = Eval(self.ctx, env)
        E.recs, E.recdepth = self.recs, self.recdepth + 1
        return E.ev(body)

    def e_attr(self, t):
        v = self.ev(t.args[0])
        n = t.args[1]
        if isinstance(v, Obj):
            if n in v.fields:
                return v.fields[n]
            raise Err('attribute ' + str(n))
        if isinstance(v, (np.ndarray, list, int, float)) and not isinstance(v, bool):
            a = to_arr(v)
            if n == 'T':
                return np.asarray(a).T
            if n == 'ndim':
                return np.asarray(a).ndim
            if n == 'size':
                return int(np.asarray(a).size)
            if n == 'real' or n == 'values':
                return a
            if n == 'index':
                return Obj('labels', {'$of': np.asarray(a)})       # the row labels of a frame, any values
            raise NotEvaluable('attr ' + str(n))
        if isinstance(v, U):
            m = self.ctx.models.get(('attr', v.key, n))
            if m:
                return m(self, v)
            if str(v.key).startswith('call:opaque.') and n in ('ndim', 'size', 'shape'):
                return {'ndim': 0, 'size': 1, 'shape': ()}[n]          # the score of a model is a number
            if n in ('T', 'ndim', 'size', 'shape'):
                self.ctx.taint.append('array attribute of uninterpreted')
            return self.ctx.ufun('attr:' + str(n), (v,))
        if v is None:
            raise Err('attribute of None')
        return self.ctx.ufun('attr:' + str(n), (v,))

    def _callform(self, name, args, kw):
        form = (len(args), tuple(sorted(k for k, v in kw)))
        f = self.ctx.forms.setdefault(name, form)
        if f != form and len(args) + len(kw) == f[0] + len(f[1]):
            self.ctx.taint.append('call form of ' + name)

    def e_ret(self, t):
        name, st, args, kw = t.args
        a = tuple(self.ev(x) for x in args)
        k = tuple((n, self.ev(v)) for n, v in kw)
        if str(name) in ('uniform', 'normal', 'randint', 'rand', 'randn', 'choice', 'permutation', 'random_sample', 'random'):
            s = self._state(st)
            if isinstance(s, U) and s.key == 'generator':
                return self.rngv(str(name), a, dict(k), (s,))
        return self.ctx.ufun('ret:' + str(name), (self._state(st), a) + tuple(x for p in k for x in p))

    def e_after(self, t):
        st, name, args, kw = t.args
        a = tuple(self.ev(x) for x in args)
        k = tuple((n, self.ev(v)) for n, v in kw)
        self._callform('.' + str(name), a, k)
        return self.ctx.ufun('after:' + str(name), (self._state(st), a) + tuple(x for p in k for x in p))

    def _state(self, st):
        if st.op == 'unset':
            return 'unset'
        return self.ev(st)

    def e_mcall(self, t):
        o, name, args, kw = t.args
        v = self.ev(o)
        a = tuple(self.ev(x) for x in args)
        k = tuple((n, self.ev(x)) for n, x in kw)
        if v is None:
            raise Err('method of None')
        m = self.ctx.models.get(('mcall', getattr(v, 'key', None), name)) or self.ctx.models.get(('mcall', None, name))
        if m:
            return m(self, v, a, dict(k))
        if isinstance(v, (np.ndarray, list, tuple, dict, str, int, float)):
            raise NotEvaluable('method %s of data' % name)
        self._callform('.' + str(name), a, k)
        return self.ctx.ufun('mcall:' + str(name), (v, a) + tuple(x for p in k for x in p))

    def e_rng(self, t):
        name, args, kw = t.args[:3]
        a = tuple(self.ev(x) for x in args)
        k = {n: self.ev(v) for n, v in kw}
        ks = tuple(as_int(self.ev(x)) for x in t.args[3]) if len(t.args) > 3 else ()
        return self.rngv(str(name).split('.')[-1], a, k, ks)

    def rngv(self, base, a, k, ks=()):
        seed = k.pop('$seed', None)
        ka = tuple(x for n in sorted(k) for x in (n, k[n])) + (seed,)
        a = list(a)

        def size(v):
            if v is None:
                return None
            if isinstance(v, (tuple, list)):
                return tuple(as_int(x) for x in v)
            return as_int(v)
        npseed = None

        def make(r):
            g = np.random.RandomState(r.randint(0, 2 ** 31 - 1))
            if base == 'randint' or base == 'integers':
                lo = k.get('low', a[0] if a else 0)
                hi = k.get('high', a[1] if len(a) > 1 else None)
                if hi is None:
                    lo, hi = 0, lo
                lo, hi = int(num_of(lo)), int(num_of(hi))
                if hi <= lo:
                    raise Err('randint range')
                s = size(k.get('size', a[2] if len(a) > 2 else None))
                x = g.randint(lo, hi, size=s)
                return int(x) if s is None else x.astype(float)
            if base == 'uniform':
                lo = arith(k.get('low', a[0] if a else 0.0))
                hi = arith(k.get('high', a[1] if len(a) > 1 else 1.0))
                s = size(k.get('size', a[2] if len(a) > 2 else None))
                try:
                    x = g.uniform(lo, hi, size=s)
                except ValueError:
                    raise Err('uniform shape')
                return x
            if base in ('rand', 'randn'):
                f = g.rand if base == 'rand' else g.randn
                return f(*[as_int(x) for x in a])
            if base in ('normal', 'standard_normal', 'random', 'random_sample'):
                s = size(k.get('size', a[-1] if a and base != 'normal' else a[2] if len(a) > 2 else None))
                if base in ('random', 'random_sample'):
                    return g.random_sample(s)
                return g.normal(arith(k.get('loc', 0.0)), arith(k.get('scale', 1.0)), s)
            if base == 'choice' and (len(a) >= 1 or 'a' in k):
                n = k['a'] if 'a' in k else a[0]
                pool = list(range(as_int(n))) if not isinstance(n, (list, np.ndarray, tuple)) else list(n)
                s = size(k.get('size', a[1] if len(a) > 1 else None))
                rep = k.get('replace', a[2] if len(a) > 2 else True)
                try:
                    return np.asarray(g.choice(np.array(pool), size=s, replace=bool(rep)))
                except ValueError:
                    raise Err('choice')
            if base == 'permutation':
                n = a[0]
                return g.permutation(np.arange(as_int(n)) if not isinstance(n, (list, np.ndarray)) else to_arr(n))
            if base == 'binomial':
                s = k.get('size', a[2] if len(a) > 2 else None)
                return g.binomial(as_int(k.get('n', a[0] if a else 1)), float(num_of(k.get('p', a[1] if len(a) > 1 else 0.5))), size=size(s)).astype(float)
            raise NotEvaluable('rng ' + base)
        if base == 'permutation' and len(a) == 1 and not ks:
            n = a[0]
            return to_arr(self._perm(list(range(as_int(n))) if not isinstance(n, (list, np.ndarray)) else list(n), seed))
        if base == 'choice' and not ks and k.get('replace') is False and k.get('p') is None and not a and set(k) <= {'a', 'size', 'replace', 'p'}:
            n = k.get('a')
            pool = list(n) if isinstance(n, (list, np.ndarray, tuple)) else list(range(as_int(n)))
            if k.get('size') is not None and not isinstance(k['size'], (tuple, list)) and as_int(k['size']) == len(pool):
                return to_arr(self._perm(pool, seed))
        sz = size(k.get('size'))
        self.ctx.draw(base, sz is not None, len(ks), 1 if sz is None else int(np.prod(sz)), repr(sz))
        return self.ctx.usample('rng:' + base, tuple(a) + ka + (ks,), make)

    # --- calls
    def e_call(self, t):
        name, args, kw = t.args
        name = str(name)
        if name in self.ctx.models:
            a = tuple(self.ev(x) for x in args)
            return self.ctx.models[name](self, a, {k: self.ev(v) for k, v in kw})
        a = [self.ev(x) for x in args]
        k = {n: self.ev(v) for n, v in kw}
        if name in ('numpy.random.RandomState', 'numpy.random.default_rng') and len(a) + len(k) == 1:
            return self.ctx.ufun('generator', (name,) + tuple(a) + tuple(k.values()))
        return self.call(name, a, k)

    def call(self, name, a, k):
        if name in UF1 and len(a) == 1:
            x = arith(a[0])
            with np.errstate(all='ignore'):
                if name == 'log':
                    r = np.log(np.asarray(x, dtype=float))
                else:
                    r = UF1[name](np.asarray(x, dtype=float))
            return r if isinstance(x, np.ndarray) else r.item()
        if name in ('erfc', 'erf') and len(a) == 1:
            from scipy import special
            x = arith(a[0])
            r = getattr(special, name)(x)
            return r if isinstance(x, np.ndarray) else float(r)
        if name == 'astype' and len(a) == 2 and isinstance(a[1], tuple) and a[1][0] == 'ext' and a[1][1] in ('numpy.float32', 'numpy.float16'):
            return _coarse(arith(a[0]))
        if any(isinstance(x, U) for x in a) and (name in STRUCT or name.startswith('numpy.')):
            self.ctx.taint.append('%s of uninterpreted' % name)
            return self.ctx.ufun('np:' + name, tuple(a) + tuple(x for n in sorted(k) for x in (n, k[n])))
        f = getattr(self, 'c_' + name.replace('.', '_'), None)
        if f is not None:
            try:
                with np.errstate(all='ignore'):
                    return f(a, k)
            except (ValueError, IndexError, TypeError, KeyError) as ex:
                raise Err('%s: %s' % (name, ex))
        root = name.split('.')[0]
        if root in ('numpy', 'jax', 'math') or name == 'astype':
            return self._generic_np(name, a, k)
        if root == 'builtins' or '.' not in name:
            raise NotEvaluable('call ' + name)
        self._callform(name, tuple(a), tuple(k.items()))
        return self.ctx.ufun('call:' + name, tuple(a) + tuple(x for n in sorted(k) for x in (n, k[n])))

    def _generic_np(self, name, a, k):
        base = name.split('.')
        m = np
        if base[0] == 'jax':
            base = base[1:]
        try:
            for p in base[1:]:
                m = getattr(m, p)
        except AttributeError:
            raise NotEvaluable(name)
        if name.startswith('numpy.random'):
            raise NotEvaluable(name)

        def conv(v):
            if isinstance(v, list):
                return [x if isinstance(x, np.ndarray) else x for x in v] if any(isinstance(x, np.ndarray) for x in v) else to_arr(v)
            if isinstance(v, tuple) and v and v[0] in ('ext', 'cls', 'fn'):
                raise NotEvaluable(name)
            if isinstance(v, U):
                raise NotEvaluable(name)
            if isinstance(v, float) and v == int(v) if isinstance(v, float) and math.isfinite(v) else False:
                return int(v)
            return v
        try:
            with np.errstate(all='ignore'):
                r = m(*[conv(x) for x in a], **{n: conv(x) for n, x in k.items()})
        except np.linalg.LinAlgError:
            raise NotEvaluable('linalg')
        except (ValueError, IndexError) as ex:
            raise Err('%s: %s' % (name, ex))
        except TypeError as ex:
            raise NotEvaluable('%s: %s' % (name, ex))
        if isinstance(r, np.generic):
            r = r.item()
        return r

    def _ax(self, k):
        ax = k.get('axis')
        return None if ax is None else (tuple(as_int(x) for x in ax) if isinstance(ax, tuple) else as_int(ax))

    def _red(self, f, a, k):
        v = to_arr(a[0])
        ax = self._ax(k)
        if not isinstance(v, np.ndarray):
            v = np.asarray(arith(v))
        if v.dtype == object:
            raise NotEvaluable('reduction over objects')
        r = f(v, ax)
        return r.item() if isinstance(r, np.generic) or (isinstance(r, np.ndarray) and r.ndim == 0) else r

    def c_to_numpy(self, a, k):
        return to_arr(a[0]) if len(a) else None

    def c_mean(self, a, k):
        return self._red(lambda v, ax: np.mean(v, axis=ax), a, k)

    def c_median(self, a, k):
        return self._red(lambda v, ax: np.median(v, axis=ax), a, k)

    def c_sum(self, a, k):
        return self._red(lambda v, ax: np.sum(v, axis=ax), a, k)

    def c_prod(self, a, k):
        return self._red(lambda v, ax: np.prod(v, axis=ax), a, k)

    def c_max(self, a, k):
        if 'default' in k and len_(a[0]) == 0:
            return k['default']
        k = {n: v for n, v in k.items() if n != 'default'}
        if isinstance(a[0], (list, tuple)) and any(isinstance(x, (tuple, list)) for x in a[0]):
            return max(a[0]) if not k else self._ne('max')
        return self._red(lambda v, ax: np.max(v, axis=ax), a, k)

    def _ne(self, w):
        raise NotEvaluable(w)

    def c_min(self, a, k):
        if 'default' in k and len_(a[0]) == 0:
            return k['default']
        k = {n: v for n, v in k.items() if n != 'default'}
        return self._red(lambda v, ax: np.min(v, axis=ax), a, k)

    def c_ptp(self, a, k):
        return self._red(lambda v, ax: np.max(v, axis=ax) - np.min(v, axis=ax), a, k)

    def c_var(self, a, k):
        dd = as_int(k.get('ddof', 0))
        return self._red(lambda v, ax: np.var(v, axis=ax, ddof=dd), a, k)

    def c_argmax(self, a, k):
        return self._red(lambda v, ax: np.argmax(v, axis=ax), a, k)

    def c_argmin(self, a, k):
        return self._red(lambda v, ax: np.argmin(v, axis=ax), a, k)

    def c_any(self, a, k):
        return self._red(lambda v, ax: np.any(v, axis=ax), a, k)

    def c_all(self, a, k):
        return self._red(lambda v, ax: np.all(v, axis=ax), a, k)

    def c_cumsum(self, a, k):
        return np.cumsum(to_arr(a[0]), axis=self._ax(k))

    def c_diff(self, a, k):
        return np.diff(to_arr(a[0]))

    def c_unique(self, a, k):
        if k or len(a) > 1:
            raise NotEvaluable('unique')
        return np.unique(to_arr(a[0]))

    def c_argsort(self, a, k):
        return np.argsort(to_arr(a[0]), kind='stable')

    def c_norm(self, a, k):
        o = a[1] if len(a) > 1 else None
        v = to_arr(a[0])
        if isinstance(o, U):
            raise NotEvaluable('norm order')
        r = np.linalg.norm(v, ord=o, axis=self._ax(k))
        return r.item() if isinstance(r, np.generic) else r

    def c_dot(self, a, k):
        x, y = (np.asarray(to_arr(v), dtype=float) for v in a)
        r = np.dot(x, y)
        return r.item() if isinstance(r, np.generic) or r.ndim == 0 else r

    def c_outer(self, a, k):
        return np.outer(to_arr(a[0]), to_arr(a[1]))

    def c_transpose(self, a, k):
        return np.asarray(to_arr(a[0])).T

    def c_ravel(self, a, k):
        return np.ravel(to_arr(a[0]))

    def c_reshape(self, a, k):
        return np.reshape(to_arr(a[0]), tuple(as_int(x) for x in a[1]))

    def c_squeeze(self, a, k):
        r = np.squeeze(np.asarray(to_arr(a[0])), axis=self._ax(k))
        return r

    def c_expand_dims(self, a, k):
        return np.expand_dims(np.asarray(to_arr(a[0])), axis=self._ax(k))

    def c_where(self, a, k):
        return tuple(np.where(np.asarray(a[0])))

    def c_where3(self, a, k):
        return np.where(np.asarray(a[0]), arith(a[1]), arith(a[2]))

    def c_clip(self, a, k):
        lo, hi = (None if x is None else arith(x) for x in a[1:3])
        r = np.clip(arith(a[0]), lo, hi)
        return r.item() if isinstance(r, np.generic) else r

    def c_astype(self, a, k):
        d = a[1]
        nm = str(d[1] if isinstance(d, tuple) else d).split('.')[-1]
        v = to_arr(a[0])
        if 'int' in nm:
            return np.trunc(np.asarray(v, dtype=float)) if isinstance(v, np.ndarray) else int(v)
        if nm in ('bool', 'bool_'):
            return np.asarray(v).astype(bool)
        return v

    def c_int(self, a, k):
        v = a[0]
        if isinstance(v, np.ndarray) and v.size != 1:
            raise Err('int of array')
        f = float(num_of(v if not isinstance(v, np.ndarray) else v.ravel()[0]))
        if f != f or math.isinf(f):
            raise Err('int of nan')
        return int(f)

    def c_round(self, a, k):
        v, ds = arith(a[0]), [as_int(x) for x in a[1:]] + ([as_int(k['decimals'])] if 'decimals' in k else [])
        if ds and ds[0] >= 3:
            ds = [1]        # exaggerated, so that the comparison's tolerance does not hide it
        return np.round(v, *ds) if isinstance(v, np.ndarray) else round(v, *ds)

    c_numpy_round = c_numpy_around = c_round

    def c_tuple(self, a, k):
        v = a[0]
        if isinstance(v, np.ndarray):
            return tuple(v.tolist())
        return tuple(self._seq(v))

    def c_str(self, a, k):
        return 'str:%r' % (keyof(a[0]),)

    def c_numpy_partition(self, a, k):
        v = np.asarray(to_arr(a[0]))
        if v.ndim != 1:
            raise NotEvaluable('partition')
        return np.partition(v, as_int(a[1]))

    def c_numpy_histogram(self, a, k):
        v = np.asarray(to_arr(a[0]), dtype=float)
        bins = k.get('bins', a[1] if len(a) > 1 else 10)
        rg = k.get('range')
        dens = bool(k.get('density', False))
        if rg is not None:
            rg = tuple(float(num_of(x)) for x in rg)
        bins = as_int(bins) if not isinstance(bins, (np.ndarray, list)) else to_arr(bins)
        h, e = np.histogram(v, bins=bins, range=rg, density=dens)
        return (h.astype(float), e)

    def c_numpy_searchsorted(self, a, k):
        r = np.searchsorted(to_arr(a[0]), arith(a[1]) if not isinstance(a[1], (list, np.ndarray)) else to_arr(a[1]), side=k.get('side', a[2] if len(a) > 2 else 'left'))
        return r.item() if isinstance(r, np.generic) else r

    def c_numpy_linalg_inv(self, a, k):
        v = np.asarray(to_arr(a[0]), dtype=float)
        try:
            return np.linalg.inv(v)
        except np.linalg.LinAlgError:
            raise NotEvaluable('singular')

    def c_scipy_spatial_distance_cdist(self, a, k):
        x, y = (np.atleast_2d(np.asarray(to_arr(v), dtype=float)) for v in a[:2])
        met = k.get('metric', a[2] if len(a) > 2 else 'euclidean')
        if met != 'euclidean':
            raise NotEvaluable('metric')
        return np.sqrt(((x[:, None, :] - y[None, :, :]) ** 2).sum(-1))

    def c_scipy_stats_entropy(self, a, k):
        from scipy import stats
        q = k.get('qk', a[1] if len(a) > 1 else None)
        b = k.get('base', a[2] if len(a) > 2 else None)
        return float(stats.entropy(to_arr(a[0]), None if q is None else to_arr(q), None if b is None else num_of(b)))

    def c_scipy_stats_t_ppf(self, a, k):
        from scipy import stats
        q = k.get('q', a[0] if a else None)
        df = k.get('df', a[1] if len(a) > 1 else None)
        return float(stats.t.ppf(num_of(q), num_of(df)))

    def c_scipy_stats_chi2_isf(self, a, k):
        from scipy import stats
        q = k.get('q', a[0] if a else None)
        df = k.get('df', a[1] if len(a) > 1 else None)
        return float(stats.chi2.isf(num_of(q), num_of(df)))

    def c_mmh3_hash(self, a, k):
        return self.ctx.usample('mmh3.hash', tuple(a) + tuple(x for n in sorted(k) for x in (n, k[n])), lambda r: r.randint(0 if k.get('signed', True) is False else -2 ** 31, 2 ** 32 - 1 if k.get('signed', True) is False else 2 ** 31 - 1))


class _Unset:
    pass


UNSETV = _Unset()
_STOP = object()
