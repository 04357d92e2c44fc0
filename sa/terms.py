"""Hash-consed symbolic terms with canonical normal forms.

Terms are *values denoted by source expressions*; they are built by the
abstract interpreter (interp.py) and never evaluated on data.  Normal forms:
  - arithmetic: sums of monomials with rational exponents (poly)
  - conditionals: reduced ordered decision diagrams over comparison atoms (ite)
  - sequences: cat/drop/take/list/map with position-bound lambda bodies
Binders (map, sum, ...) use height-indexed bound variables, so that
alpha-equivalent loops are the same term.
"""
import hashlib
from fractions import Fraction

_intern = {}
MAXTERMS = 80


class T:
    __slots__ = ('op', 'args', 'dig', '_h', '_fv', '_sz', '_od')

    def __repr__(self):
        return show(self)


def _digest(op, args):
    m = hashlib.blake2b(digest_size=12)
    m.update(op.encode())
    for a in args:
        _dfeed(m, a)
    return m.digest()


def _dfeed(m, a):
    if isinstance(a, T):
        m.update(b'T')
        m.update(a.dig)
    elif isinstance(a, tuple):
        m.update(b'(')
        for x in a:
            _dfeed(m, x)
        m.update(b')')
    else:
        m.update((type(a).__name__ + ':' + str(a) + ';').encode())


def odig(t):
    """digest up to the names of bound variables and the package a class lives in: the order of
    decisions must not depend on them"""
    r = t._od
    if r is None:
        if t.op == 'sym':
            n = str(t.args[0])
            i = n.find('$')
            if n[:1] in '@$' or (i > 0 and n[i + 1:].isdigit()):
                r = b'phi' if n.startswith('phi') else b'#'
            else:
                r = t.dig
        else:
            m = hashlib.blake2b(digest_size=12)
            m.update(t.op.encode())
            for a in t.args:
                m.update(_oenc(a, t.op == 'poly'))
            r = m.digest()
        t._od = r
    return r


def _oenc(a, unordered=False):
    if isinstance(a, T):
        return b'T' + odig(a)
    if isinstance(a, tuple):
        xs = [_oenc(x, unordered) for x in a]
        if unordered:
            xs.sort()
        return b'(' + b''.join(xs) + b')'
    if isinstance(a, str) and (a.startswith('pysad.') or a.startswith('spec.')):
        a = a.split('.')[-1]
    return (type(a).__name__ + ':' + str(a) + ';').encode()


def mk(op, *args):
    dig = _digest(op, args)
    t = _intern.get(dig)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.dig = dig
        t._h = None
        t._fv = None
        t._sz = None
        t._od = None
        _intern[dig] = t
    return t


# ---------------------------------------------------------------- constants
def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v:
            return mk('c', 'nan')
        if v in (float('inf'), float('-inf')):
            return INF if v > 0 else mk('c', '-inf')
        v = Fraction(repr(v))
    return mk('num', Fraction(v))


INF = mk('c', 'inf')
NINF = mk('c', '-inf')
TRUE = mk('bool', True)
FALSE = mk('bool', False)
NONE = mk('none')
UNDEF = mk('undef')
ZERO = num(0)
ONE = num(1)


def strc(s):
    return mk('str', s)


def sym(name, kind='any'):
    return mk('sym', name, kind)


def is_num(t):
    return t.op == 'num'


def numval(t):
    return t.args[0] if t.op == 'num' else None


def children(t):
    out = []

    def rec(a):
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)
    for a in t.args:
        rec(a)
    return out


def walk(t, seen=None):
    """All distinct subterms."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.dig in seen:
            continue
        seen.add(x.dig)
        yield x
        stack.extend(children(x))


def syms(t):
    if t._fv is None:
        if t.op == 'sym':
            t._fv = frozenset([t])
        else:
            s = set()
            for c in children(t):
                s |= syms(c)
            t._fv = frozenset(s)
    return t._fv


_FREE = {}


def free_syms(t):
    """symbols occurring free (not bound by an enclosing binder of t)"""
    r = _FREE.get(t.dig)
    if r is None:
        if t.op == 'sym':
            r = frozenset([t])
        elif not syms(t):
            r = frozenset()
        elif t.op in BINDERS:
            n, bodies, extra = t.args
            h = binder_var(t).args[0]
            s = set()
            for b in bodies:
                s |= {y for y in free_syms(b) if y.args[0] != h and not y.args[0].startswith(h + '.')}
            for c in children(t):
                if not any(c is b for b in bodies):
                    s |= free_syms(c)
            r = frozenset(s)
        else:
            s = set()
            for c in children(t):
                s |= free_syms(c)
            r = frozenset(s)
        _FREE[t.dig] = r
    return r


def contains(t, x):
    if x.op == 'sym':
        return x in syms(t)
    return any(y is x for y in walk(t))


def contains_op(t, op):
    return any(y.op == op for y in walk(t))


def size(t):
    if t._sz is None:
        n = 1
        for c in children(t):
            n += size(c)
        t._sz = min(n, 10**9)
    return t._sz


# ---------------------------------------------------------------- ite / BDD
ATOMIC_BOOL = {'ge0', 'eq0', 'eq', 'isnone', 'truthy', 'isinst', 'hasattr',
               'any', 'in', 'exc', 'bcall'}


def top(t):
    return t.args[0] if t.op == 'ite' else None


def _cof(t, a, val):
    if t.op == 'ite' and t.args[0] is a:
        return t.args[1] if val else t.args[2]
    return t


def ite(c, a, b):
    c = asbool(c)
    return _ite(c, a, b)


_memo_ite = {}
_okeys = {}


def _okey(t):
    """order of decision atoms: thresholds of one linear form are adjacent, in numeric order"""
    r = _okeys.get(t.dig)
    if r is None:
        r = (odig(t), t.dig, 0, 0, t.dig)
        if t.op in ('ge0', 'eq0', 'gt0'):
            p = to_poly(t.args[0])
            q = from_poly({m: c for m, c in p.items() if m})
            n = neg(q)
            if q.op != 'num':
                k = -p.get((), 0)
                flip = (odig(n), n.dig) < (odig(q), q.dig)
                f = n if flip else q
                r = (odig(f), f.dig, -k if flip else k, ('ge0', 'gt0', 'eq0').index(t.op), t.dig)
        _okeys[t.dig] = r
    return r


def _bound(v):
    """(form, k, op) of an integer threshold atom: form >= k or form == k"""
    if v.op not in ('ge0', 'eq0') or not is_int(v.args[0]):
        return None
    p = to_poly(v.args[0])
    q = from_poly({m: c for m, c in p.items() if m})
    if q.op == 'num':
        return None
    return q.dig, -p.get((), 0), v.op


def _under(t, b, val):
    """t restricted by a threshold atom of the same linear form known to be val"""
    if t.op != 'ite':
        return t
    w = _bound(t.args[0])
    if w is None or w[0] != b[0]:
        return t
    r = None
    k, j = b[1], w[1]
    if b[2] == 'ge0' and val:       # form >= k
        r = True if w[2] == 'ge0' and j <= k else False if w[2] == 'eq0' and j < k else None
    elif b[2] == 'ge0':             # form < k
        r = False if j >= k else None
    elif val:                       # form == k
        r = (k >= j) if w[2] == 'ge0' else (k == j)
    if r is not None:
        return _under(t.args[1] if r else t.args[2], b, val)
    hi, lo = _under(t.args[1], b, val), _under(t.args[2], b, val)
    if hi is t.args[1] and lo is t.args[2]:
        return t
    return _ite(t.args[0], hi, lo)


def _ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    k = (c.dig, a.dig, b.dig, _bdepth)
    r = _memo_ite.get(k)
    if r is not None:
        return r
    if c.op == 'ite':
        tops = [c.args[0]]
    else:
        tops = [c]
    for x in (a, b):
        if x.op == 'ite':
            tops.append(x.args[0])
    v = min(tops, key=_okey)
    if c.op == 'ite':
        c1, c0 = _cof(c, v, True), _cof(c, v, False)
    elif c is v:
        c1, c0 = TRUE, FALSE
    else:
        c1 = c0 = c
    hi = _ite(c1, _cof(a, v, True), _cof(b, v, True))
    lo = _ite(c0, _cof(a, v, False), _cof(b, v, False))
    r = _node(v, hi, lo)
    _memo_ite[k] = r
    return r


def _node(v, hi, lo):
    if (hi.op == 'ite' or lo.op == 'ite') and v.op in ('ge0', 'eq0'):
        b = _bound(v)
        if b:
            hi, lo = _under(hi, b, True), _under(lo, b, False)
    if hi is lo:
        return hi
    if hi is UNDEF:
        return lo
    if lo is UNDEF:
        return hi
    if v.op == 'ge0' and hi.op != 'bool' and lo.op != 'bool':
        r = _minmax(v, hi, lo)
        if r is not None:
            return r
        r = None if _truthy(hi) or _truthy(lo) else _boundary(v, hi, lo)
        if r is not None:
            return r
    if hi.op == 'tuple' and lo.op == 'tuple' and len(hi.args) == len(lo.args):
        return mk('tuple', *[_ite(v, x, y) for x, y in zip(hi.args, lo.args)])
    # eq-substitution: under v, an equality atom lets hi be compared with lo
    if v.op in ('eq0', 'eq') and hi.op != 'ite' and lo.op != 'ite':
        m = eq_subst(v)
        if m:
            if subst(hi, m) is subst(lo, m):
                return lo
    return mk('ite', v, hi, lo)


def _truthy(t):
    """a diagram of conditions"""
    while t.op == 'ite':
        t = t.args[1]
    return t.op == 'bool'


_NONNUM = {'ite', 'list', 'tuple', 'cat', 'map', 'take', 'drop', 'store', 'stores', 'str', 'none', 'ref', 'obj', 'new',
           'dictmap', 'filter', 'objlist', 'bool', 'undef'}


def _minmax(v, hi, lo):
    """max(hi, lo) / min(hi, lo): one canonical orientation."""
    if hi.op in _NONNUM or lo.op in _NONNUM or hi is NONE or lo is NONE:
        return None
    d = sub(hi, lo)
    if d.op in _NONNUM:
        return None
    e = neg(d)
    w1, w2 = ge0(d), ge0(e)
    if w1.op != 'ge0' or w2.op != 'ge0':
        return None
    ismax = v is w1
    ismin = v is w2
    if not (ismax or ismin) and is_int(d):
        ismax = v is ge0(_add(d, num(-1)))
        ismin = v is ge0(_add(e, num(-1)))
    if not (ismax or ismin):
        return None
    first = (odig(d), d.dig) < (odig(e), e.dig)
    if ismax:
        return mk('ite', w1, hi, lo) if first else mk('ite', w2, lo, hi)
    return mk('ite', w2, hi, lo) if first else mk('ite', w1, lo, hi)


def solve0(p):
    """{atom: term} solving p == 0 for a linear unit-coefficient atom."""
    q = to_poly(p)
    ints = is_int(p)
    best = None
    for mono, c in q.items():
        if len(mono) == 1 and mono[0][1] == 1 and (abs(c) == 1 or not ints):
            a = mono[0][0]
            rest = from_poly({m: -x / c for m, x in q.items() if m != mono})
            if not contains(rest, a):
                if best is None or (odig(a), a.dig) < (odig(best[0]), best[0].dig):
                    best = (a, rest)
    return {best[0]: best[1]} if best else None


_bmemo = {}


def _boundary(v, hi, lo):
    """if(p>=0; hi; lo) with hi == lo at p == 0: move the boundary to a canonical side."""
    global _bdepth
    key = (v.dig, hi.dig, lo.dig, _bdepth)
    if key in _bmemo:
        return _bmemo[key]
    if _bdepth >= 2:
        return None
    _bmemo[key] = None
    _bdepth += 1
    try:
        r = _boundary1(v, hi, lo)
    finally:
        _bdepth -= 1
    _bmemo[key] = r
    return r


_bdepth = 0


def _boundary1(v, hi, lo):
    p = v.args[0]
    if size(hi) + size(lo) > 400:
        return None
    m = solve0(p)
    r = None
    if m:
        a, = m
        if contains(hi, a) or contains(lo, a):
            if subst(hi, m) is subst(lo, m):
                if is_int(p):
                    w = ge0(_add(p, num(-1)))
                    r = _ite(w, hi, lo) if w is not v else None
                else:
                    w = ge0(neg(p))
                    if w.op == 'ge0' and w.dig < v.dig:
                        r = _ite(w, lo, hi)
    return r


def eq_subst(v):
    if v.op == 'eq':
        a, b = v.args
        if a.op == 'sym':
            return {a: b}
        if b.op == 'sym':
            return {b: a}
        return None
    p = to_poly(v.args[0])
    for mono, c in p.items():
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'sym':
            s = mono[0][0]
            rest = {m: -x / c for m, x in p.items() if m != mono}
            r = from_poly(rest)
            if not contains(r, s):
                return {s: r}
    return None


_nnodes = {}
LIFT_CAP = 400


def ite_nodes(t):
    """number of decision nodes of a diagram"""
    if t.op != 'ite':
        return 0
    r = _nnodes.get(t.dig)
    if r is None:
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x.op == 'ite' and x.dig not in seen:
                seen.add(x.dig)
                todo.extend((x.args[1], x.args[2]))
        r = _nnodes[t.dig] = len(seen)
    return r


_REFOPS = {'ref', 'view', 'cls', 'fn', 'ext', 'mod', 'meth', 'bmeth', 'bool', 'list', 'cat', 'tuple', 'none', 'unset', 'super'}


def atom(t):
    """A large decision diagram treated as one opaque value."""
    if t.op != 'ite' or ite_nodes(t) <= LIFT_CAP // 2:
        return t
    if any(x.op in _REFOPS for x in leaves(t)):
        return t
    return mk('atom', t)


def lift(f, *args):
    """Apply f to args, distributing over top-level ite of any arg."""
    n = 1
    for a in args:
        if a.op == 'ite':
            n *= 1 + ite_nodes(a)
    if n == 1:
        return f(*args)
    if n > LIFT_CAP:
        args = tuple(atom(a) for a in args)
    memo = {}

    def go(args):
        tops = [a.args[0] for a in args if a.op == 'ite']
        if not tops:
            return f(*args)
        key = tuple(a.dig for a in args)
        r = memo.get(key)
        if r is not None:
            return r
        v = min(tops, key=_okey)
        hi = go([_cof(a, v, True) for a in args])
        lo = go([_cof(a, v, False) for a in args])
        r = memo[key] = _ite(v, hi, lo)
        return r
    return go(list(args))


_memo_bool = {}


def asbool(t):
    """Value in branch position -> boolean decision diagram."""
    op = t.op
    if op == 'bool':
        return t
    if op == 'ite':
        r = _memo_bool.get((t.dig, _bdepth))
        if r is None:
            r = _memo_bool[t.dig, _bdepth] = _ite(t.args[0], asbool(t.args[1]), asbool(t.args[2]))
        return r
    if op in ATOMIC_BOOL:
        return t
    if op == 'gt0':
        return bnot(ge0(neg(t.args[0])))
    if op == 'ne0':
        return bnot(mk('eq0', t.args[0]))
    if op == 'ne':
        return bnot(mk('eq', *t.args))
    if op == 'notin':
        return bnot(mk('in', *t.args))
    if op == 'num':
        return TRUE if t.args[0] != 0 else FALSE
    if op == 'str':
        return TRUE if t.args[0] else FALSE
    if op in ('none',):
        return FALSE
    if op == 'undef':
        return UNDEF
    if op in ('list', 'tuple'):
        return TRUE if t.args else FALSE
    if op in ('cat', 'drop', 'take', 'map'):
        return asbool(cmp_gt(length(t), ZERO))
    if op in ('cls', 'fn', 'meth', 'ext', 'mod', 'ref', 'bmeth'):
        return TRUE
    if op == 'poly':
        return bnot(asbool(cmp_eq(t, ZERO)))
    if op == 'len':
        return asbool(cmp_gt(t, ZERO))
    if op == 'mod_':
        return bnot(asbool(cmp_eq(t, ZERO)))
    return mk('truthy', t)


ARM_PATHS = 400


def arms(t):
    """the distinct values of a decision diagram with the condition of each, and its number of paths"""
    order, paths = [], {}

    def go(x):
        n = paths.get(x.dig)
        if n is None:
            if x.op == 'ite':
                n = go(x.args[1]) + go(x.args[2])
                order.append(x)
            else:
                n = 1
                order.append(x)
            paths[x.dig] = n
        return n
    n = go(t)
    leafs = [x for x in order if x.op != 'ite']
    if n <= max(ARM_PATHS, 4 * len(leafs)):
        return None
    cond = {t.dig: TRUE}
    for x in reversed(order):
        if x.op == 'ite':
            c = cond[x.dig]
            for y, d in ((x.args[1], x.args[0]), (x.args[2], bnot(x.args[0]))):
                cond[y.dig] = bor(cond.get(y.dig, FALSE), band(c, d))
    return [(cond[x.dig], x) for x in leafs]


def bnot(c):
    return _ite(c, FALSE, TRUE)


def band(a, b):
    return _ite(asbool(a), asbool(b), FALSE)


def bor(a, b):
    return _ite(asbool(a), TRUE, asbool(b))


def vnot(t):
    """Logical negation in value position."""
    op = t.op
    if op == 'ge0':
        return mk('gt0', neg(t.args[0]))
    if op == 'gt0':
        return mk('ge0', neg(t.args[0]))
    if op == 'eq0':
        return mk('ne0', t.args[0])
    if op == 'ne0':
        return mk('eq0', t.args[0])
    if op == 'eq':
        return mk('ne', *t.args)
    if op == 'ne':
        return mk('eq', *t.args)
    if op == 'in':
        return mk('notin', *t.args)
    if op == 'notin':
        return mk('in', *t.args)
    return bnot(asbool(t))


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    if t.op == 'bool':
        return {(): Fraction(1)} if t.args[0] else {}
    return {((t, Fraction(1)),): Fraction(1)}


def _mkey(m):
    return (len(m), tuple((a.dig, e) for a, e in m))


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: _mkey(mc[0])))
    return mk('poly', items)


def _special(t):
    return t.op == 'c'


def _add(a, b):
    if _special(a) or _special(b):
        if _special(a) and b.op in ('num', 'poly', 'sym'):
            return a
        if _special(b) and a.op in ('num', 'poly', 'sym'):
            return b
        return mk('add', *sorted((a, b), key=lambda t: t.dig))
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, Fraction(0)) + c
    return from_poly(p)


def add(a, b):
    return lift(_add, a, b)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _monomul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, Fraction(0)) + e
    for a, e in m2:
        d[a] = d.get(a, Fraction(0)) + e
    coef = Fraction(1)
    out = []
    expand = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == 'num':
            if e.denominator == 1:
                coef *= a.args[0] ** int(e)
                continue
        if a.op in ('poly',) and e.denominator == 1 and e > 0:
            expand.append((a, int(e)))
            continue
        if a.op == 'num' and abs(e) > 1:
            w = int(e)
            coef *= a.args[0] ** w
            e = e - w
            if e == 0:
                continue
        out.append((a, e))
    out.sort(key=lambda ae: ae[0].dig)
    return tuple(out), coef, expand


def _mul(a, b):
    if _special(a) or _special(b):
        x, y = (a, b) if _special(a) else (b, a)
        if y.op == 'num' and x.args[0] in ('inf', '-inf'):
            v = y.args[0]
            if v == 0:
                return mk('c', 'nan')
            s = (x.args[0] == 'inf') == (v > 0)
            return INF if s else NINF
        return mk('mul', *sorted((a, b), key=lambda t: t.dig))
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > MAXTERMS:
        # atomise the larger factor
        if len(pa) >= len(pb):
            pa = {((mk('grp', a), Fraction(1)),): Fraction(1)}
        else:
            pb = {((mk('grp', b), Fraction(1)),): Fraction(1)}
        if len(pa) * len(pb) > MAXTERMS:
            pb = {((mk('grp', b), Fraction(1)),): Fraction(1)}
    res = {}
    extra = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m, k, ex = _monomul(m1, m2)
            c = c1 * c2 * k
            if ex:
                t = from_poly({m: c})
                for atom, e in ex:
                    for _ in range(e):
                        t = _mul(t, atom)
                extra.append(t)
            else:
                res[m] = res.get(m, Fraction(0)) + c
    r = from_poly(res)
    for t in extra:
        r = _add(r, t)
    return r


def mul(a, b):
    return lift(_mul, a, b)


def _content(t):
    """Split poly into (coef, primitive poly) with canonical leading coefficient 1."""
    p = to_poly(t)
    if not p:
        return Fraction(0), t
    lead = sorted(p.items(), key=lambda mc: _mkey(mc[0]))[-1][1]
    return lead, from_poly({m: c / lead for m, c in p.items()})


def _frac_pow(c, e):
    """rational c>0 to rational e if exact, else None"""
    if e.denominator == 1:
        return c ** int(e)
    r = round(float(c) ** (1.0 / e.denominator))
    for base in (Fraction(r),):
        if base > 0 and base ** e.denominator == c:
            return base ** e.numerator
    if c.numerator == 1 or True:
        n, d = c.numerator, c.denominator
        rn = round(n ** (1.0 / e.denominator))
        rd = round(d ** (1.0 / e.denominator))
        if rn > 0 and rd > 0 and rn ** e.denominator == n and rd ** e.denominator == d:
            return Fraction(rn, rd) ** e.numerator
    return None


def _powq(a, e):
    """a ** e for rational e."""
    if e == 0:
        return ONE
    if e == 1:
        return a
    if _special(a):
        return mk('pow', a, num(e))
    if a.op == 'num':
        v = a.args[0]
        if e.denominator == 1:
            if v == 0 and e < 0:
                return mk('c', 'nan')
            return num(v ** int(e))
        if v >= 0:
            r = _frac_pow(v, e) if v else Fraction(0)
            if r is not None:
                return num(r)
            return from_poly({((a, e),): Fraction(1)})
        return mk('c', 'nan')
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            t = num(c ** int(e))
            for at, x in m:
                ne = x * e
                if at.op == 'poly' and ne.denominator == 1 and ne > 0:
                    t = _mul(t, _powq(at, ne))
                else:
                    t = _mul(t, from_poly({((at, ne),): Fraction(1)}))
            return t
        if c > 0:
            t = _powq(num(c), e)
            for at, x in m:
                if x.denominator == 1 and x.numerator % 2 == 0 and (x * e).denominator == 1 and (x * e).numerator % 2:
                    t = _mul(t, _powq(absv(at), x * e))
                else:
                    t = _mul(t, from_poly({((at, x * e),): Fraction(1)}))
            return t
        return from_poly({((a, e),): Fraction(1)})
    if e.denominator == 1 and e > 0:
        n = int(e)
        if len(p) ** n <= MAXTERMS:
            r = a
            for _ in range(n - 1):
                r = _mul(r, a)
            return r
        return from_poly({((mk('grp', a), e),): Fraction(1)})
    # multi-term, negative or fractional exponent
    if e.denominator == 1:
        lead, prim = _content(a)
        return from_poly({((prim, e),): lead ** int(e)})
    lead, prim = _content(a)
    if lead > 0:
        f = _powq(num(lead), e)
        return _mul(f, from_poly({((prim, e),): Fraction(1)}))
    return from_poly({((a, e),): Fraction(1)})


def power(a, b):
    def f(x, y):
        if y.op == 'num':
            return _powq(x, y.args[0])
        if x.op == 'num' and x.args[0] == 1:
            return ONE
        # x ** (y) with symbolic exponent: split sums of exponents
        py = to_poly(y)
        if x.op in ('num', 'sym') and len(py) > 1:
            r = ONE
            for m, c in py.items():
                r = _mul(r, f(x, from_poly({m: c})))
            return r
        if len(py) == 1:
            (m, c), = py.items()
            if c < 0:
                return from_poly({((mk('pow', x, from_poly({m: -c})), Fraction(-1)),): Fraction(1)})
        return mk('pow', x, y)
    return lift(f, a, b)


def div(a, b):
    return mul(a, power(b, num(-1)))


def sqrt(a):
    return power(a, num(Fraction(1, 2)))


def absv(a):
    def f(x):
        if x.op == 'num':
            return num(abs(x.args[0]))
        if x.op == 'c':
            return INF
        if x.op in ('abs', 'len', 'count'):
            return x
        p = to_poly(x)
        if len(p) == 1:
            (m, c), = p.items()
            r = num(abs(c))
            rest = []
            for at, e in m:
                if at.op in ('abs', 'len', 'count') or (e.denominator == 1 and e.numerator % 2 == 0) or e.denominator == 2:
                    r = _mul(r, from_poly({((at, e),): Fraction(1)}))
                elif at.op == 'poly' and e == -1:
                    r = _mul(r, _powq(absv(at), e))
                else:
                    rest.append((at, e))
            if rest:
                if len(rest) == 1 and rest[0][1] == 1:
                    inner = rest[0][0]
                    r = _mul(r, mk('abs', inner))
                else:
                    for at, e in rest:
                        r = _mul(r, _powq(mk('abs', at), e))
            return r
        # common factor extraction: sum_i c_i m_i * d^-1  ->  abs(sum)*abs(d)^-1
        common = None
        for m in p:
            d = {at: e for at, e in m if e < 0}
            if common is None:
                common = d
            else:
                common = {at: max(e, d[at]) for at, e in common.items() if at in d}
        if common:
            f1 = {}
            for m, c in p.items():
                md = dict(m)
                for at, e in common.items():
                    md[at] = md[at] - e
                mm = tuple(sorted(((at, e) for at, e in md.items() if e), key=lambda ae: ae[0].dig))
                f1[mm] = f1.get(mm, 0) + c
            r = absv(from_poly(f1))
            for at, e in common.items():
                r = _mul(r, _powq(absv(at), e))
            return r
        lead, prim = _content(x)
        return _mul(num(abs(lead)), mk('abs', prim))
    return lift(f, a)


# ---------------------------------------------------------------- integrality
import re
INTPAT = re.compile(r'(size|length|period|window$|num_|n_|depth|dim|index|step|count|anomalies|bins|buckets|neighbors|_k$|^k$|trees|chains|components|phase|n_trained|grace|record|num_seen|sliding|season|trend_window|^m$)', re.I)


def is_int(t):
    op = t.op
    if op == 'at':
        return is_int(t.args[0])
    if op == 'each':
        return is_int(t.args[2]) and is_int(t.args[3])
    if op == 'num':
        return t.args[0].denominator == 1
    if op in ('len', 'count', 'pos', 'int'):
        return True
    if op == 'sym':
        return t.args[1] == 'int'
    if op == 'mod_' or op == 'floordiv':
        return is_int(t.args[0]) and is_int(t.args[1])
    if op == 'poly':
        for m, c in t.args[0]:
            if c.denominator != 1:
                return False
            for a, e in m:
                if e.denominator != 1 or e < 0 or not is_int(a):
                    return False
        return True
    if op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if op == 'atom':
        return all(is_int(x) for x in leaves(t.args[0]))
    if op == 'rng':
        return t.args[0].endswith('.randint') and not any(k[0] == 'size' for k in t.args[2])
    return False


SCALAR_CALLS = {'mean', 'var', 'std', 'sum', 'min', 'max', 'median', 'norm', 'int', 'round', 'argmax', 'argmin', 'prod'}
SCALAR_EW = {'exp', 'log', 'erfc', 'erf', 'floor', 'ceil', 'tanh', 'cos', 'sin', 'sign', 'sqrt', 'log2', 'log10', 'isnan'}


def is_scalar(t):
    """the value is certainly an immutable number"""
    op = t.op
    if op in ('num', 'len', 'count', 'pos', 'int', 'sum', 'c', 'bool', 'mod_', 'floordiv', 'sumk', 'any'):
        if op in ('mod_', 'floordiv'):
            return is_scalar(t.args[0]) and is_scalar(t.args[1])
        return True
    if op == 'sym':
        return t.args[1] in ('int', 'num', 'bool')
    if op == 'at':
        return is_scalar(t.args[0])
    if op == 'poly':
        return all(is_scalar(a) for m, c in t.args[0] for a, e in m)
    if op in ('atom', 'frz'):
        return all(is_scalar(x) for x in leaves(t.args[0]))
    if op in ('abs', 'pow'):
        return all(is_scalar(a) for a in t.args if isinstance(a, T))
    if op == 'ite':
        return is_scalar(t.args[1]) and is_scalar(t.args[2])
    if op == 'each':
        return is_scalar(t.args[2]) and is_scalar(t.args[3])
    if op in ('ge0', 'gt0', 'eq0', 'ne0'):
        return is_scalar(t.args[0])
    if op == 'call':
        if t.args[0] in SCALAR_CALLS:
            return not t.args[2] and (len(t.args[1]) == 1 or t.args[0] == 'norm')
        if t.args[0] in SCALAR_EW:
            return all(is_scalar(a) for a in t.args[1])
    return False


# ---------------------------------------------------------------- comparisons
def ge0(p):
    def f(x):
        if x.op == 'num':
            return TRUE if x.args[0] >= 0 else FALSE
        if x.op == 'c':
            return TRUE if x.args[0] == 'inf' else (FALSE if x.args[0] == '-inf' else mk('ge0', x))
        q = _clear_den(x)
        lead, prim = _content(q)
        s = from_poly({m: c / abs(lead) for m, c in to_poly(q).items()})
        if is_int(q):
            # scale to integers with gcd removed, floor the constant
            pq = to_poly(q)
            const = pq.pop((), Fraction(0))
            if pq:
                from math import gcd
                g = 0
                for c in pq.values():
                    g = gcd(g, int(abs(c)))
                g = g or 1
                import math
                const = Fraction(math.floor(const / g))
                pq = {m: c / g for m, c in pq.items()}
                pq[()] = const
                s = from_poly(pq)
                # one polarity per linear form: leading coefficient positive
                lm = min((m for m in pq if m != ()), key=_mkey)
                if pq[lm] < 0 and not (len(pq) == 2 and const == 0 and False):
                    t = from_poly({m: -c for m, c in pq.items()})
                    t = _add(t, num(-1))
                    if t.op in ('len', 'count', 'abs'):
                        return FALSE
                    return bnot(mk('ge0', t))
        if s.op == 'len' or s.op == 'count' or s.op == 'abs':
            return TRUE
        return mk('ge0', s)
    return lift(f, p)


def as_ge0(c):
    """p with c <=> p >= 0, or None"""
    if c.op == 'ge0':
        return c.args[0]
    if c.op == 'ite' and c.args[0].op == 'ge0' and c.args[1] is FALSE and c.args[2] is TRUE and is_int(c.args[0].args[0]):
        return sub(neg(c.args[0].args[0]), ONE)
    return None


def _clear_den(x):
    """Multiply by denominators known positive (len/count)."""
    p = to_poly(x)
    dens = {}
    for m in p:
        for at, e in m:
            if e < 0 and at.op in ('len', 'count', 'pos'):
                dens[at] = max(dens.get(at, 0), -e)
    if not dens:
        return x
    for at, e in dens.items():
        x = _mul(x, from_poly({((at, e),): Fraction(1)}))
    return x


def cmp_ge(a, b):
    d = sub(a, b)
    return ge0v(d)


def ge0v(d):
    def f(x):
        r = ge0(x)
        return r
    return lift(f, d)


def cmp_gt(a, b):
    d = sub(a, b)

    def f(x):
        if x.op == 'num':
            return TRUE if x.args[0] > 0 else FALSE
        if x.op == 'c':
            return TRUE if x.args[0] == 'inf' else FALSE
        if is_int(x):
            return ge0(_add(x, num(-1)))
        g = ge0(neg(x))
        if g.op == 'bool':
            return bnot(g)
        if g.op == 'ge0':
            return mk('gt0', neg(g.args[0]))
        return bnot(g)
    return lift(f, d)


NUMOPS = {'num', 'poly', 'len', 'count', 'abs'}


def _iscat(t):
    return t.op in ('str', 'none', 'bool', 'list', 'tuple', 'cls', 'ext', 'ref')


def cmp_eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == 'bool' and y.op == 'bool':
            return FALSE
        if x.op == 'c' and y.op == 'c':
            return FALSE
        if (x.op == 'num' and y.op in ('str', 'none')) or (y.op == 'num' and x.op in ('str', 'none')):
            return FALSE
        if x.op == 'str' and y.op == 'str':
            return FALSE
        if x.op in ('tuple', 'list') and y.op in ('tuple', 'list'):
            if x.op != y.op or len(x.args) != len(y.args):
                return FALSE
            r = TRUE
            for p, q in zip(x.args, y.args):
                r = band(r, cmp_eq(p, q))
            return r
        if _iscat(x) or _iscat(y) or x.op == 'c' or y.op == 'c':
            return mk('eq', *sorted((x, y), key=lambda t: t.dig))
        d = sub(x, y)
        if d.op == 'num':
            return TRUE if d.args[0] == 0 else FALSE
        d = _clear_den(d)
        lead, prim = _content(d)
        if prim.op == 'mod_' and False:
            pass
        return mk('eq0', prim)
    return lift(f, a, b)


def cmp_ne(a, b):
    return lift(vnot, cmp_eq(a, b))


def is_none(t):
    def f(x):
        if x is NONE:
            return TRUE
        if x.op in ('call', 'mcall') and 'to_numpy' in x.args:
            return FALSE
        if x.op in ('sym', 'idx', 'attr', 'call', 'mcall', 'field', 'rec', 'ret'):
            return mk('isnone', x)
        if x.op == 'undef':
            return UNDEF
        return FALSE
    return lift(f, t)


# ---------------------------------------------------------------- binders
def height(t):
    """1 + max binder height inside t (bound variables are '@h')."""
    if t._h is None:
        h = 0
        for c in children(t):
            h = max(h, height(c))
        if t.op in BINDERS:
            h += 1
        t._h = h
    return t._h


BINDERS = {'famv', 'map', 'sum', 'filter', 'any', 'first', 'stores', 'fold', 'count', 'prod', 'foreach', 'lastv', 'whilef', 'foldb', 'dictmap'}


def bv(h):
    return mk('sym', '@%d' % h, 'int')


def bind(op, n, k, bodies, extra=()):
    """Create binder op over position var k in [0,n) with bodies (tuple)."""
    h = 1 + max([height(b) for b in bodies] + [0])
    v = bv(h)
    bodies = tuple(subst(b, {k: v}) for b in bodies)
    # substitution may simplify; recompute the height
    h2 = 1 + max([height(b) for b in bodies] + [0])
    if h2 != h:
        v2 = bv(h2)
        bodies = tuple(subst(b, {v: v2}) for b in bodies)
    t = mk(op, n, bodies, tuple(extra))
    return t


FOLDS = {'fold', 'foldb', 'whilef'}


def bindfold(op, n, k, cvs, bodies, inits):
    """fold with position var k and carried variables cvs (symbols)"""
    h = 1 + max([height(b) for b in bodies] + [0])
    for _ in range(4):
        m = {k: bv(h)}
        for j, c in enumerate(cvs):
            m[c] = mk('sym', '@%d.%d' % (h, j), c.args[1])
        nb = tuple(subst(b, m) for b in bodies)
        h2 = 1 + max([height(b) for b in nb] + [0])
        if h2 == h:
            break
        h = h2
    return mk(op, n, nb, tuple(inits))


def open_fold(t):
    """(k, carried symbols, bodies) with fresh names"""
    v = binder_var(t)
    h = v.args[0][1:]
    k = fresh('sb')
    m = {v: k}
    have = {}
    for b in t.args[1]:
        for y in syms(b):
            if y.args[0].startswith('@%s.' % h):
                have[y.args[0]] = y
    cvs = []
    for j in range(len(t.args[2])):
        y = have.get('@%s.%d' % (h, j))
        c = fresh('cv', y.args[1] if y is not None else 'any')
        if y is not None:
            m[y] = c
        cvs.append(c)
    return k, cvs, tuple(subst(b, m) for b in t.args[1])


def coarse(t, colors, memo):
    """hash independent of bound names, of the order of decisions and of the numbering of carried variables"""
    r = memo.get(t.dig)
    if r is not None:
        return r
    if t.op == 'sym':
        nm = t.args[0]
        if nm in colors:
            r = 'C' + colors[nm]
        elif nm[0] == '@' or '$' in nm:
            r = 'B'
        else:
            r = 'S' + nm
    elif t.op == 'ite':
        seen, parts, stack = set(), set(), [t]
        while stack:
            x = stack.pop()
            if x.dig in seen:
                continue
            seen.add(x.dig)
            if x.op == 'ite':
                c = x.args[0]
                if c.op in ('ge0', 'eq0'):
                    c = c.args[0]
                    if c.op == 'poly':
                        parts.add('p' + '|'.join(sorted(coarse(y, colors, memo) for m, _ in c.args[0] for y, e in m)))
                    else:
                        parts.add('a' + coarse(c, colors, memo))
                else:
                    parts.add('a' + coarse(c, colors, memo))
                stack += [x.args[1], x.args[2]]
            else:
                parts.add('l' + coarse(x, colors, memo))
        r = 'I' + '|'.join(sorted(parts))
    elif t.op == 'poly':
        r = 'P' + '|'.join(sorted('%s:%s' % (abs(c), ','.join(sorted('%s^%s' % (coarse(y, colors, memo), e) for y, e in m))) for m, c in t.args[0]))
    elif t.op in FOLDS:
        ni = len(t.args[2])
        r = 'F' + t.op + coarse(t.args[0], colors, memo) + coarse(t.args[1][0], colors, memo) + '|'.join(sorted(coarse(b, colors, memo) for b in t.args[1][1:ni])) \
            + '|'.join(sorted(coarse(b, colors, memo) for b in t.args[2]))
    else:
        def arg(a):
            if isinstance(a, T):
                return coarse(a, colors, memo)
            if isinstance(a, tuple):
                return '(' + ','.join(arg(y) for y in a) + ')'
            return repr(a)
        r = 'O' + t.op + ','.join(arg(a) for a in t.args)
    r = hashlib.md5(r.encode()).hexdigest()
    memo[t.dig] = r
    return r


def fold_order(t):
    """canonical numbering of the carried variables of a fold"""
    n = len(t.args[2])
    if n <= 2:
        return t
    k, cvs, bodies = open_fold(t)
    col = ['main'] + ['aux'] * (n - 1)
    classes = 2
    for _ in range(n):
        colors = {c.args[0]: x for c, x in zip(cvs, col)}
        memo = {}
        hs = [coarse(b, colors, memo) for b in bodies]
        new = ['main'] + [hs[j] + coarse(t.args[2][j], {}, {}) + col[j] for j in range(1, n)]
        # uses: which bodies mention the variable
        new = ['main'] + [hashlib.md5((new[j] + '|'.join(sorted(hs[i] for i in range(len(bodies)) if cvs[j] in syms(bodies[i])))).encode()).hexdigest() for j in range(1, n)]
        col = new
        if len(set(col)) == classes and _ > 0:
            break
        classes = len(set(col))
    order = [0] + sorted(range(1, n), key=lambda j: col[j])
    if order == list(range(n)):
        return t
    ex = bodies[n:]
    return bindfold(t.op, t.args[0], k, [cvs[j] for j in order], tuple(bodies[j] for j in order) + tuple(ex), [t.args[2][j] for j in order])


def binder_var(t):
    h = 1 + max([height(b) for b in t.args[1]] + [0])
    return bv(h)


def open_binder(t, k):
    """Bodies with bound var replaced by k."""
    v = binder_var(t)
    return tuple(subst(b, {v: k}) for b in t.args[1])


def mapseq(n, k, body):
    # loop-invariant conditions are hoisted
    inv = _inv_atom(body, k)
    if inv is not None:
        return _ite(inv, mapseq(n, k, _restrict1(body, inv, True)), mapseq(n, k, _restrict1(body, inv, False)))
    if n.op == 'ite':
        return lift(lambda m: mapseq(m, k, body), n)
    # eta: map(len(s), s[k]) == s
    if body.op == 'idx' and body.args[1] is k and not contains(body.args[0], k) and length(body.args[0]) is n:
        return body.args[0]
    if n.op == 'num' and 0 <= n.args[0] <= 4:
        return mk('list', *[subst(body, {k: num(i)}) for i in range(int(n.args[0]))])
    return bind('map', n, k, (body,))


def _inv_atom(body, k):
    seen = set()
    stack = [body]
    while stack:
        x = stack.pop()
        if x.dig in seen or x.op != 'ite':
            continue
        seen.add(x.dig)
        if not contains(x.args[0], k):
            return x.args[0]
        stack.append(x.args[1])
        stack.append(x.args[2])
    return None


def _restrict1(t, atom, val):
    if t.op != 'ite':
        return t
    if t.args[0] is atom:
        return _restrict1(t.args[1] if val else t.args[2], atom, val)
    return _ite(t.args[0], _restrict1(t.args[1], atom, val), _restrict1(t.args[2], atom, val))


def sumover(n, k, body):
    inv = _inv_atom(body, k)
    if inv is not None:
        return _ite(inv, sumover(n, k, _restrict1(body, inv, True)), sumover(n, k, _restrict1(body, inv, False)))
    if n.op == 'ite':
        return lift(lambda m: sumover(m, k, body), n)
    if body is ZERO:
        return ZERO
    if not contains(body, k):
        return mul(n, body)
    if body.op in ('ge0', 'gt0', 'eq0', 'ne0', 'eq', 'ne', 'in', 'notin'):
        body = ite(body, ONE, ZERO)
    if body.op == 'ite':
        lv = leaves(body)
        if all(x is ONE or x is ZERO for x in lv):
            return bind('count', n, k, (asbool(body),))
    p = to_poly(body)
    if len(p) > 1:
        r = ZERO
        for m, c in p.items():
            r = add(r, sumover(n, k, from_poly({m: c})))
        return r
    (m, c), = p.items()
    inside = tuple((a, e) for a, e in m if contains(a, k))
    outside = tuple((a, e) for a, e in m if not contains(a, k))
    f = from_poly({outside: c})
    body = from_poly({inside: Fraction(1)})
    # sum(map) over s[k] with n=len(s)
    t = bind('sum', n, k, (body,))
    return mul(f, t)


_leaves = {}


def leaves(t):
    if t.op != 'ite':
        return [t]
    r = _leaves.get(t.dig)
    if r is None:
        out, seen, stack = [], set(), [t]
        while stack:
            x = stack.pop()
            if x.dig in seen:
                continue
            seen.add(x.dig)
            if x.op == 'ite':
                stack += [x.args[2], x.args[1]]
            else:
                out.append(x)
        r = _leaves[t.dig] = out
    return list(r)


def paths(t, pc=TRUE):
    """(condition, leaf) pairs."""
    if t.op == 'ite':
        a = t.args[0]
        yield from paths(t.args[1], band(pc, a))
        yield from paths(t.args[2], band(pc, bnot(a)))
    else:
        yield pc, t


# ---------------------------------------------------------------- sequences
def length(s):
    def f(x):
        op = x.op
        if op in ('list', 'tuple'):
            return num(len(x.args))
        if op == 'str':
            return num(len(x.args[0]))
        if op == 'cat':
            r = ZERO
            for p in x.args:
                r = add(r, length(p))
            return r
        if op == 'map':
            return x.args[0]
        if op == 'arr' or op == 'mat':
            return length(x.args[0])
        if op == 'call' and x.args[0] == 'reshape' and x.args[1][1].op == 'tuple' and x.args[1][1].args[0].op == 'num' and x.args[1][1].args[0].args[0] > 0:
            return x.args[1][1].args[0]
        if op == 'call' and x.args[0].endswith('.cdist'):
            return length(x.args[1][0])
        if op == 'call' and x.args[0] == 'expand_dims':
            return ONE
        if op == 'sorted' or op == 'reversed' or op == 'perm':
            return length(x.args[0])
        if op == 'filter':
            return mk('count', x.args[0], (x.args[1][0],), ())
        if op == 'call' and x.args[0] == 'astype':
            return length(x.args[1][0])
        if op == 'rep':
            return mul(length(x.args[0]), x.args[1])
        if op == 'store' or op == 'stores':
            return length(x.args[0] if op == 'store' else x.args[2][0])
        if op == 'alloc':
            return x.args[1]
        if op == 'drop':
            n = x.args[1]
            L = length(x.args[0])
            return ite(cmp_ge(L, n), sub(L, n), ZERO) if False else mk('len', x)
        if op == 'elementwise':
            return length(x.args[0])
        if op == 'bagadd':
            return add(length(x.args[0]), ONE)
        if op == 'bagdel':
            return sub(length(x.args[0]), ONE)
        return mk('len', x)
    return lift(f, s)


def seqlist(*items):
    return mk('list', *items)


def cat(*parts):
    flat = []

    def build(ps):
        out = []
        for p in ps:
            if p.op == 'arr':
                p = p.args[0]
            if p.op == 'cat':
                qs = list(p.args)
            elif p.op == 'tuple':
                qs = [mk('list', *p.args)]
            else:
                qs = [p]
            for q in qs:
                if q.op == 'list' and not q.args:
                    continue
                if out and out[-1].op == 'list' and q.op == 'list':
                    out[-1] = mk('list', *(out[-1].args + q.args))
                else:
                    out.append(q)
        if not out:
            return mk('list')
        if len(out) == 1:
            return out[0]
        return mk('cat', *out)
    return lift(lambda *ps: build(ps), *parts)


def drop(s, n):
    def f(x, m):
        if x.op == 'arr':
            r = drop(x.args[0], m)
            return lift(lambda z: mk('arr', z), r)
        if m is ZERO:
            return x
        if m.op == 'num' and m.args[0] < 0:
            return lastn(x, neg(m))
        if x.op == 'list':
            if m.op == 'num':
                return mk('list', *x.args[int(m.args[0]):])
            if not x.args:
                return x
        if x.op == 'drop':
            return drop(x.args[0], add(x.args[1], m))
        if x.op == 'map':
            k = sym('_k_drop', 'int')
            b, = open_binder(x, k)
            return mapseq(sub(x.args[0], m), k, subst(b, {k: add(k, m)})) if m.op == 'num' and x.args[0].op == 'num' else mk('drop', x, m)
        if x.op == 'cat':
            p0 = x.args[0]
            L = length(p0)
            d = sub(m, L)
            if d.op == 'num':
                if d.args[0] >= 0:
                    return drop(cat(*x.args[1:]), d)
                if p0.op == 'list':
                    return cat(drop(p0, m), *x.args[1:])
                return cat(drop(p0, m), *x.args[1:])
        if length(x) is m:
            return mk('list')
        return mk('drop', x, m)
    return lift(f, s, n)


def take(s, n):
    def f(x, m):
        if x.op == 'arr':
            r = take(x.args[0], m)
            return lift(lambda z: mk('arr', z), r)
        L = length(x)
        if L is m:
            return x
        d = sub(m, L)
        if d.op == 'num' and d.args[0] >= 0:
            return x
        if x.op == 'list' and m.op == 'num':
            return mk('list', *x.args[:int(m.args[0])])
        if m is ZERO:
            return mk('list')
        if x.op == 'cat':
            # trim from the right
            last = x.args[-1]
            rest = cat(*x.args[:-1])
            d = sub(m, length(rest))
            if d.op == 'num':
                if d.args[0] <= 0:
                    return take(rest, m)
                return cat(rest, take(last, d))
        if x.op == 'map' :
            k = sym('_k_take', 'int')
            b, = open_binder(x, k)
            return mapseq(m, k, b)
        return mk('take', x, m)
    return lift(f, s, n)


def lastn(s, n):
    """s[-n:] for n >= 1."""
    L = length(s)
    d = sub(L, n)
    return drop(s, ite(ge0v(d), d, ZERO))


def index(s, i):
    def f(x, j):
        if x.op == 'arr' and j.op not in ('tuple', 'slice', 'ge0', 'gt0', 'eq0', 'ne0'):
            return index(x.args[0], j)
        if x.op == 'shape' and j is ZERO:
            return length(x.args[0])
        if x.op in ('list', 'tuple') and j.op == 'num' and j.args[0].denominator == 1:
            v = int(j.args[0])
            if -len(x.args) <= v < len(x.args):
                return x.args[v]
            return mk('idx', x, j)
        if x.op == 'none':
            return mk('idx', x, j)
        if x.op == 'map' and (j.op != 'tuple') and j.op not in ('ge0', 'gt0', 'eq0', 'ne0', 'slice'):
            k = sym('_k_idx', 'int')
            b, = open_binder(x, k)
            if j.op == 'num' and j.args[0] < 0:
                j = add(x.args[0], j)
            if not _has_slice(j):
                return subst(b, {k: j})
        if x.op == 'cat' and j.op == 'num':
            v = int(j.args[0])
            if v < 0:
                last = x.args[-1]
                L = length(last)
                if L.op == 'num':
                    if -v <= L.args[0]:
                        return index(last, j)
                    return index(cat(*x.args[:-1]), num(v + L.args[0]))
            else:
                first = x.args[0]
                L = length(first)
                if L.op == 'num':
                    if v < L.args[0]:
                        return index(first, j)
                    return index(cat(*x.args[1:]), num(v - L.args[0]))
        if x.op == 'cat':
            # index relative to the length of a prefix
            rest = ZERO
            for pi, p in enumerate(x.args):
                d = sub(j, rest)
                if p.op == 'list' and d.op == 'num' and 0 <= d.args[0] < len(p.args):
                    return p.args[int(d.args[0])]
                rest = add(rest, length(p))
        if x.op == 'store' and x.args[1] is j:
            return x.args[2]
        if x.op == 'store':
            d = sub(x.args[1], j) if x.args[1].op in ('num', 'poly', 'sym') and j.op in ('num', 'poly', 'sym') else None
            if d is not None and d.op == 'num' and d.args[0] != 0:
                return index(x.args[0], j)
            if x.args[1].op == 'str' and j.op == 'str':
                return index(x.args[0], j)
        if x.op == 'drop' and j.op == 'num' and j.args[0] >= 0:
            return index(x.args[0], add(x.args[1], j))
        if x.op == 'drop' and j.op == 'num' and j.args[0] < 0:
            return mk('idx', x, j)
        if x.op == 'reversed' and is_int(j):
            return index(x.args[0], sub(sub(length(x.args[0]), ONE), j))
        # negative index via length: s[len-1] == s[-1]
        if j.op == 'poly' or j.op == 'len':
            d = sub(j, length(x))
            if d.op == 'num' and d.args[0] < 0 and x.op != 'map':
                return index(x, d)
        return mk('idx', x, j)
    return lift(f, s, i)


def _has_slice(j):
    return j.op in ('slice', 'tuple')


def subseq(s, lo, hi):
    """s[lo:hi], lo/hi terms or NONE."""
    def f(x, l, h):
        r = x
        L = length(x)
        if h is not NONE:
            hh = h
            if h.op == 'num' and h.args[0] < 0:
                hh = add(L, h)
            elif _isneg(h):
                hh = add(L, h)
            else:
                d = sub(h, L)
                if d.op == 'num' and d.args[0] >= 0:
                    hh = None
            if hh is not None:
                r = take(r, hh)
        if l is not NONE and l is not ZERO:
            if _isneg(l):
                n = neg(l)
                if h is NONE:
                    return lastn(r, n)
                return mk('subseq', x, l, h)
            r = drop(r, l)
        return r
    return lift(f, s, lo, hi)


def _isneg(t):
    if t.op == 'num':
        return t.args[0] < 0
    if t.op == 'poly':
        cs = [c for m, c in t.args[0] if m != ()]
        return bool(cs) and all(c < 0 for c in cs) and all(len(m) <= 1 or True for m, c in t.args[0])
    return False


def store(s, i, v):
    def f(x, j):
        if x.op == 'store' and x.args[1] is j:
            return mk('store', x.args[0], j, v)
        if x.op == 'list' and j.op == 'num' and 0 <= j.args[0] < len(x.args):
            a = list(x.args)
            a[int(j.args[0])] = v
            return mk('list', *a)
        if v.op == 'idx' and v.args[0] is x and v.args[1] is j:
            return x
        return mk('store', x, j, v)
    if v.op == 'ite' or s.op == 'ite' or i.op == 'ite':
        def g(x, j, w):
            if x.op == 'store' and x.args[1] is j:
                return mk('store', x.args[0], j, w)
            if x.op == 'list' and j.op == 'num' and 0 <= j.args[0] < len(x.args):
                a = list(x.args)
                a[int(j.args[0])] = w
                return mk('list', *a)
            if w.op == 'idx' and w.args[0] is x and w.args[1] is j:
                return x
            return mk('store', x, j, w)
        return lift(g, s, i, v)
    return f(s, i)


# ---------------------------------------------------------------- substitution
_CONSTR = {}


def rebuild(t, args):
    op = t.op
    if op == 'poly':
        r = ZERO
        for m, c in args[0]:
            x = num(c)
            for a, e in m:
                x = mul(x, power(a, num(e)))
            r = add(r, x)
        return r
    if op == 'ite':
        return ite(args[0], args[1], args[2])
    if op == 'ge0':
        return ge0v(args[0])
    if op == 'gt0':
        return cmp_gt(args[0], ZERO)
    if op == 'eq0':
        return cmp_eq(args[0], ZERO)
    if op == 'ne0':
        return cmp_ne(args[0], ZERO)
    if op == 'eq':
        return cmp_eq(args[0], args[1])
    if op == 'ne':
        return cmp_ne(args[0], args[1])
    if op == 'abs':
        return absv(args[0])
    if op == 'len':
        return length(args[0])
    if op == 'cat':
        return cat(*args)
    if op == 'drop':
        return drop(args[0], args[1])
    if op == 'take':
        return take(args[0], args[1])
    if op == 'idx':
        return index(args[0], args[1])
    if op == 'at':
        return el(args[0], args[1])
    if op == 'store':
        return store(args[0], args[1], args[2])
    if op == 'isnone':
        return is_none(args[0])
    if op == 'truthy':
        return lift(asbool, args[0])
    if op == 'pow':
        return power(args[0], args[1])
    if op in ('call', 'mcall', 'attr') and any(isinstance(c, T) and c.op == 'ite' for c in _flat(args)):
        return _lift_generic(op, args)
    f = _CONSTR.get(op)
    if f:
        return f(*args)
    if op in ('maximum', 'minimum', 'maskand', 'maskor', 'mul', 'add') and len(args) == 2 and all(isinstance(a, T) for a in args):
        args = tuple(sorted(args, key=lambda a: a.dig))
    if any(isinstance(c, T) and c.op == 'ite' for c in _flat(args)) and op not in BINDERS and op not in ('tuple', 'list'):
        return _lift_generic(op, args)
    return mk(op, *args)


def el(f, ks):
    """element of an indexed family of values"""
    if not ks:
        return f
    if f.op == 'ite':
        return lift(lambda x: el(x, ks), f)
    if f.op == 'famv':
        b, = open_binder(f, ks[0])
        return el(b, ks[1:])
    if f.op == 'at':
        return el(f.args[0], f.args[1] + ks)
    return mk('at', f, tuple(ks))


def famv(ks, body):
    """the family whose element at ks is body"""
    for j in range(len(ks) - 1, -1, -1):
        if body.op == 'at' and body.args[1][-1] is ks[j] and not any(contains(x, ks[j]) for x in body.args[1][:-1]) \
                and not contains(body.args[0], ks[j]):
            body = el(body.args[0], body.args[1][:-1])
        else:
            body = bind('famv', ZERO, ks[j], (body,))
    return body


def _flat(args):
    for a in args:
        if isinstance(a, tuple):
            yield from _flat(a)
        else:
            yield a


def _lift_generic(op, args):
    flat = [a for a in _flat(args) if isinstance(a, T)]
    def put(it, a):
        if isinstance(a, tuple):
            return tuple(put(it, x) for x in a)
        if isinstance(a, T):
            return next(it)
        return a
    def f(*xs):
        it = iter(xs)
        na = tuple(put(it, a) for a in args)
        c = _CONSTR.get(op)
        return c(*na) if c else mk(op, *na)
    if len([x for x in flat if x.op == 'ite']) == 0:
        return f(*flat)
    return lift(f, *flat)


_CONSTR['atom'] = atom


def mkl(op, *args):
    """mk with lifting of ite arguments."""
    return _lift_generic(op, args)


_smemo = {}


def subst(t, m, memo=None):
    """Capture-avoiding by construction: bound vars are '@h', never in m
    except when opening binders (h unique by height)."""
    if not m:
        return t
    if memo is None:
        memo = {}
    leafonly = all(k.op == 'sym' for k in m)
    ks = frozenset(m.keys())

    def rec(x):
        r = memo.get(x.dig)
        if r is not None:
            return r
        if x in ks:
            r = m[x]
        elif not x.args:
            r = x
        elif leafonly and not (syms(x) & ks):
            r = x
        elif x.op in BINDERS:
            r = _subst_binder(x, rec)
        else:
            na = tuple(_rec_arg(a, rec) for a in x.args)
            r = x if na == x.args else rebuild(x, na)
        memo[x.dig] = r
        return r
    return rec(t)


def _rec_arg(a, rec):
    if isinstance(a, T):
        return rec(a)
    if isinstance(a, tuple):
        return tuple(_rec_arg(x, rec) for x in a)
    return a


_uid = [0]


def fresh(prefix='k', kind='int'):
    _uid[0] += 1
    return sym('%s$%d' % (prefix, _uid[0]), kind)


def _subst_binder(x, rec):
    n, bodies, extra = x.args
    v = binder_var(x)
    n2 = rec(n)
    e2 = tuple(_rec_arg(a, rec) for a in extra)
    if x.op in FOLDS:
        k, cvs, opened = open_fold(x)
        b2 = tuple(rec(b) for b in opened)
        if n2 is n and e2 == extra and b2 == opened:
            return x
        if n2.op == 'ite':
            return lift(lambda m: bindfold(x.op, m, k, cvs, b2, e2), n2)
        return bindfold(x.op, n2, k, cvs, b2, e2)
    k = fresh('sb')
    opened = [subst(b, {v: k}) for b in bodies]
    b2 = tuple(rec(b) for b in opened)
    if n2 is n and e2 == extra and b2 == tuple(opened):
        return x
    return rebind(x.op, n2, k, b2, e2)


def rebind(op, n, k, bodies, extra):
    if op == 'map':
        return mapseq(n, k, bodies[0])
    if op == 'sum':
        return sumover(n, k, bodies[0])
    if op == 'count':
        return sumover(n, k, ite(bodies[0], ONE, ZERO))
    if op == 'famv':
        return famv((k,), bodies[0])
    if n.op == 'ite':
        return lift(lambda m: rebind(op, m, k, bodies, extra), n)
    return bind(op, n, k, bodies, extra)


# ---------------------------------------------------------------- facts
class Facts:
    """A conjunction of linear facts p >= 0 (terms) plus boolean atom values."""

    def __init__(self, ge=(), atoms=None, eqs=None):
        self.ge = list(ge)
        self.atoms = dict(atoms or {})
        self.eqs = dict(eqs or {})

    def decide(self, atom):
        if atom in self.atoms:
            return self.atoms[atom]
        if atom.op == 'ge0':
            p = atom.args[0]
            if self.implies_ge(p):
                return True
            q = add(neg(p), num(-1)) if is_int(p) else None
            if q is not None and self.implies_ge(q):
                return False
            if q is None:
                # not(p>=0) <= -p > 0
                if self.implies_gt(neg(p)):
                    return False
        if atom.op == 'eq0':
            p = atom.args[0]
            if self.implies_gt(p) or self.implies_gt(neg(p)):
                return False
        return None

    def _combos(self):
        yield ZERO
        for a in self.ge:
            yield a
        for i, a in enumerate(self.ge):
            for b in self.ge[i:]:
                yield add(a, b)
        for i, a in enumerate(self.ge):
            for j, b in enumerate(self.ge[i:]):
                for c in self.ge[i + j:]:
                    yield add(add(a, b), c)

    def implies_ge(self, p):
        p = subst(p, self.eqs) if self.eqs else p
        base = self._nonneg_part(p)
        for c in self._combos():
            d = sub(base, c)
            if d.op == 'num' and d.args[0] >= 0:
                return True
        return False

    def implies_gt(self, p):
        p = subst(p, self.eqs) if self.eqs else p
        if is_int(p):
            return self.implies_ge(add(p, num(-1)))
        base = self._nonneg_part(p)
        for c in self._combos():
            d = sub(base, c)
            if d.op == 'num' and d.args[0] > 0:
                return True
        return False

    def _nonneg_part(self, p):
        """Drop monomials that are trivially >= 0 (len, count, abs with + coef)."""
        q = {}
        for m, c in to_poly(p).items():
            if c > 0 and m and all(a.op in ('len', 'count', 'abs') for a, e in m) and len(m) >= 1:
                known = from_poly({m: Fraction(1)})
                if any(contains(g, m[0][0]) for g in self.ge):
                    q[m] = c
                continue
            q[m] = c
        return from_poly(q)


def restrict(t, facts):
    """Rebuild t under facts: equalities substituted, decided atoms removed,
    drop/take pushed through cat when lengths are known."""
    if facts.eqs:
        for _ in range(3):
            t2 = subst(t, facts.eqs)
            if t2 is t:
                break
            t = t2
    memo = {}

    def rec(x):
        r = memo.get(x.dig)
        if r is not None:
            return r
        r = rec0(x)
        memo[x.dig] = r
        return r

    def rec0(x):
        if not x.args:
            return x
        if x.op == 'ite':
            a = recatom(x.args[0])
            if a is TRUE:
                return rec(x.args[1])
            if a is FALSE:
                return rec(x.args[2])
            return ite(a, rec(x.args[1]), rec(x.args[2]))
        if x.op in ATOMIC_BOOL:
            return recatom(x)
        if x.op in BINDERS:
            return _subst_binder(x, rec)
        na = tuple(_rec_arg(a, rec) for a in x.args)
        y = x if na == x.args else rebuild(x, na)
        return seqsimp(y)

    def recatom(a):
        d = facts.decide(a)
        if d is not None:
            return TRUE if d else FALSE
        na = tuple(_rec_arg(z, rec) for z in a.args)
        b = a if na == a.args else rebuild(a, na)
        if b.op in ATOMIC_BOOL:
            d = facts.decide(b)
            if d is not None:
                return TRUE if d else FALSE
        elif b.op == 'ite':
            return rec(b) if b is not a else b
        return b

    def seqsimp(y):
        if y.op == 'drop':
            x, m = y.args
            if x.op == 'cat':
                p0 = x.args[0]
                L = length(p0)
                if facts.implies_ge(sub(L, m)):
                    return cat(seqsimp2(drop(p0, m)), *x.args[1:])
                if facts.implies_ge(sub(m, L)):
                    return seqsimp(drop(cat(*x.args[1:]), sub(m, L)))
        if y.op == 'take' and y.args[0].op == 'cat':
            x, m = y.args
            last = x.args[-1]
            rest = cat(*x.args[:-1])
            if facts.implies_ge(sub(length(rest), m)):
                return seqsimp(take(rest, m))
        if y.op == 'len' and y.args[0].op == 'drop':
            s, m = y.args[0].args
            if facts.implies_ge(sub(length(s), m)):
                return rec(sub(length(s), m))
        if y.op == 'len' and y.args[0].op == 'take':
            s, m = y.args[0].args
            if facts.implies_ge(sub(length(s), m)):
                return m
        if y.op == 'idx' and y.args[0].op == 'cat' and y.args[1].op == 'num' and y.args[1].args[0] >= 0:
            p0 = y.args[0].args[0]
            L = length(p0)
            if facts.implies_gt(sub(L, y.args[1])):
                return index(p0, y.args[1])
        return y

    def seqsimp2(y):
        return seqsimp(y)

    for _ in range(4):
        memo = {}
        t2 = rec(t)
        if facts.eqs:
            t2 = subst(t2, facts.eqs)
        if t2 is t:
            return t
        t = t2
    return t


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 14:
        return '...'
    op = t.op
    if op == 'num':
        v = t.args[0]
        return str(v) if v.denominator < 1000 else repr(float(v))
    if op == 'sym':
        return t.args[0]
    if op == 'bool':
        return str(t.args[0])
    if op == 'none':
        return 'None'
    if op == 'str':
        return repr(t.args[0])
    if op == 'c':
        return t.args[0]
    if op == 'poly':
        out = []
        for m, c in t.args[0]:
            s = []
            if c != 1 or not m:
                s.append(show(num(c)))
            for a, e in m:
                x = show(a, d + 1)
                if a.op == 'poly':
                    x = '(' + x + ')'
                s.append(x if e == 1 else '%s^%s' % (x, e))
            out.append('*'.join(s))
        return '(' + ' + '.join(out) + ')'
    if op == 'ite':
        return 'if(%s; %s; %s)' % tuple(show(a, d + 1) for a in t.args)
    if op == 'idx':
        return '%s[%s]' % (show(t.args[0], d + 1), show(t.args[1], d + 1))
    if op in ('cls', 'ext', 'mod'):
        return str(t.args[0])
    if op == 'ge0':
        return '(%s >= 0)' % show(t.args[0], d + 1)
    if op == 'gt0':
        return '(%s > 0)' % show(t.args[0], d + 1)
    if op == 'eq0':
        return '(%s == 0)' % show(t.args[0], d + 1)
    if op == 'call':
        a = [show(x, d + 1) for x in t.args[1]]
        a += ['%s=%s' % (k, show(v, d + 1)) for k, v in t.args[2]]
        return '%s(%s)' % (t.args[0], ', '.join(a))
    if op == 'list':
        return '[' + ', '.join(show(x, d + 1) for x in t.args) + ']'
    if op == 'tuple':
        return '<' + ', '.join(show(x, d + 1) for x in t.args) + '>'
    return '%s(%s)' % (op, ', '.join(show(a, d + 1) for a in t.args))
