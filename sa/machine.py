"""Transition systems extracted from class models, and their comparison.

A Machine is the (symbolic) transition system of a class: for every public
method the returned value, the raise conditions and the next value of every
state component, as terms over constructor parameters, method arguments and
the previous state.  `compare` decides simulation between the class in the
repository and a reference class (spec/): identical normal forms discharge the
obligation for every input and history; otherwise a separating interpretation
reachable from the constructor is searched for, and only such a separation is
reported.
"""
import random

from . import terms as tm
from .terms import T, NONE, UNDEF, TRUE, FALSE, sym, mk
from .interp import UNSET, _hasref
from .classmodel import ClassModel
from .evalterm import Eval, Ctx, NotEvaluable, Err, U, Fam, Obj, UNSETV, _Unset, same, as_int


class Opaque(Exception):
    pass


class FamT:
    """family-valued state component: n elements, inner term over index k"""

    def __init__(self, n, k, inner):
        self.n, self.k, self.inner = n, k, inner


def parse(path):
    out = []
    for part in path.split('.'):
        name, *subs = part.split('[')
        out.append(('f', name))
        for s in subs:
            s = s.rstrip(']')
            out.append(('e',) if s == '*' else ('i', int(s[1:])))
    return out


class Machine:
    def __init__(self, M, norm=None):
        self.M = M
        self.norm = norm or (lambda t: t)
        self._names = None
        self._rp = {}
        self._pre = {}
        self._recs = {}
        out, seen = M._reach(M.base if hasattr(M, 'base') else M.init_st)
        self.path_oid = {p: o for o, p in seen.items()}

    # ---------------------------------------------------------- reading state
    def read(self, I, st, path):
        """frozen term (or FamT) of a state component in a state"""
        if '~' in path:
            raise Opaque('conditional objects')
        steps = parse(path)
        if steps[0] != ('f', 'self'):
            raise Opaque(path)
        from .interp import ref
        return self._walk(I, st, ref('self'), steps[1:], path)

    def _walk(self, I, st, v, steps, path):
        if not steps:
            if v is UNSET or v is UNDEF:
                return v
            # a container or scalar: its frozen content; instances are opaque handles
            def leaf(x):
                if x.op == 'ref' and st.heap.get(x.args[0]) is not None and st.heap[x.args[0]].kind == 'inst':
                    return mk('obj', path, ())
                if x.op == 'ref' and st.heap.get(x.args[0]) is not None:
                    c = I.content(st, x)
                    ns = {y.dig: _objlen(st, y) for y in tm.leaves(c)}
                    if all(n is not None or (y.op == 'list' and not y.args) or y is NONE for y in tm.leaves(c) for n in [ns[y.dig]]) \
                            and any(n is not None for n in ns.values()):
                        return _lift1(lambda y: mk('objlist', I.fz(st, ns[y.dig])) if ns[y.dig] is not None else (y if y is NONE else mk('objlist', tm.num(0))), _fzc(I, st, c))
                t = I.fz(st, x)
                if t.op in ('map', 'list') and _objlist(t):
                    return mk('objlist', tm.length(t))
                return t
            return _lift1(leaf, v)
        s = steps[0]
        if s[0] == 'f':
            def fld(x):
                if x is UNSET or x is NONE or x is UNDEF:
                    return UNSET
                if x.op != 'ref':
                    if x.op in ('sym', 'at', 'call', 'after', 'new', 'attr'):
                        raise Opaque('field of opaque %s' % path)
                    return UNSET
                c = st.heap.get(x.args[0])
                if c is None or c.kind != 'inst':
                    raise Opaque('field of %s' % path)
                w = c.fields.get(s[1], UNSET)
                w = I._atsub(c, x, w) if w is not UNSET else w
                return self._walk(I, st, w, steps[1:], path)
            return _liftf(fld, v)
        # element family
        def el(x):
            if x is UNSET or x is NONE or x is UNDEF:
                return UNSET
            if x.op == 'ref':
                x = I.content(st, x)
            if x.op == 'ite':
                return _liftf(el, x)
            if s[0] == 'i':
                if x.op == 'list':
                    return self._walk(I, st, x.args[s[1]], steps[1:], path) if s[1] < len(x.args) else UNSET
                raise Opaque('element of %s (%s)' % (path, x.op))
            if x.op == 'map':
                k = tm.fresh('k')
                b, = tm.open_binder(x, k)
                return FamT(I.fz(st, x.args[0]), k, self._walk(I, st, b, steps[1:], path))
            if x.op == 'list' and x.args:
                k = tm.fresh('k')
                r = None
                for i in range(len(x.args) - 1, -1, -1):
                    w = self._walk(I, st, x.args[i], steps[1:], path)
                    if isinstance(w, FamT):
                        raise Opaque('nested list family')
                    r = w if r is None else tm.ite(tm.cmp_eq(k, tm.num(i)), w, r)
                return FamT(tm.num(len(x.args)), k, r)
            if x.op == 'list':
                return FamT(tm.ZERO, tm.fresh('k'), UNSET)
            if x.op == 'cat':
                fs = [el(p) for p in x.args]
                if all(isinstance(f, FamT) for f in fs) and not any(isinstance(f.inner, FamT) for f in fs):
                    k = tm.fresh('k')
                    n, r = tm.ZERO, None
                    starts = []
                    for f in fs:
                        starts.append(n)
                        n = tm.add(n, f.n)
                    for f, at in reversed(list(zip(fs, starts))):
                        w = tm.subst(f.inner, {f.k: tm.sub(k, at)})
                        r = w if r is None else tm.ite(tm.cmp_gt(tm.add(at, f.n), k), w, r)
                    return FamT(n, k, r)
            raise Opaque('elements of %s (%s)' % (path, x.op))
        return _liftf(el, v)

    # ---------------------------------------------------------- transition terms
    def ret(self, m):
        s = self.M.run(m)
        return s.interp.fz(s.st, s.ret)

    def raises(self, m):
        s = self.M.run(m) if m != '__init__' else None
        evs = s.events if s else self.M.init_events
        out = []
        for e in evs:
            if e.kind == 'raise':
                out.append((e.data.get('exc'), e.guard, e.loops, e.loc))
        return out

    def post(self, m, path):
        key = (m, path)
        if key not in self._rp:
            try:
                if m == '__init__':
                    self._rp[key] = self.read(self.M.init_interp, self.M.init_st, path)
                else:
                    s = self.M.run(m)
                    self._rp[key] = self.read(s.interp, s.st, path)
            except Opaque as ex:
                self._rp[key] = ex
        r = self._rp[key]
        if isinstance(r, Opaque):
            raise NotEvaluable(str(r))
        return r

    def state_syms(self, t):
        if isinstance(t, FamT):
            return self.state_syms(t.n) | self.state_syms(t.inner)
        return {s.args[0] for s in tm.syms(t) if s.args[0].startswith('self.') or s.args[0] == 'self'}

    def closure(self, methods):
        """state components that the observables depend on"""
        todo, done = [], set()
        for m in methods:
            todo += list(self.state_syms(self.ret(m)))
            for _, g, loops, _ in self.raises(m):
                todo += list(self.state_syms(g))
                for _, n in loops:
                    if isinstance(n, T):
                        todo += list(self.state_syms(n))
        while todo:
            p = todo.pop()
            if p in done:
                continue
            done.add(p)
            for m in methods:
                try:
                    todo += list(self.state_syms(self.post(m, p)))
                except NotEvaluable:
                    pass
        return done

    # ---------------------------------------------------------- interpretation
    def _ev_state(self, E, t):
        if isinstance(t, FamT):
            try:
                n = as_int(E.ev(t.n))
            except Err:
                return UNSETV
            vals = []
            for i in range(max(0, n)):
                E.env[t.k.args[0]] = i
                old, E.kbind = E.kbind, i
                vals.append(self._ev_state(E, t.inner))
                E.kbind = old
            E.env.pop(t.k.args[0], None)
            return Fam(vals)
        if t is UNSET or t is UNDEF:
            return UNSETV
        try:
            while t.op == 'ite':
                from .evalterm import truthy
                try:
                    d = truthy(E.ev(t.args[0]))
                except Err:
                    a, b = self._ev_state(E, t.args[1]), self._ev_state(E, t.args[2])
                    return a if a is not UNSETV and same(a, b) else UNSETV
                t = t.args[1] if d else t.args[2]
            if t is UNSET or t is UNDEF:
                return UNSETV
            if t.op == 'objlist':
                return [None] * as_int(E.ev(t.args[0]))
            if t.op == 'obj':
                return ('obj', t.args[0])
            return E.ev(t)
        except Err:
            return UNSETV

    def _rec(self, name):
        """parameters and result of a recursive method that reads and writes no state"""
        if name not in self._recs:
            self._recs[name] = None
            f = self.M.prog.recs.get(name)
            if f is not None and f.cls is not None and not f.decos:
                a = f.node.args
                q = next((q for q, c in self.M.prog.classes.items() if c is f.cls), None)
                if q is None:
                    return None
                X = Machine(ClassModel(self.M.prog, q))
                r = X.ret(name)
                pure = not X.raises(name) and not any(e.kind in ('setfield', 'globalwrite', 'eachwrite', 'unsupported') or e.kind == 'mutate' and e.data.get('origin') for e in X.M.run(name).events)
                if pure and not a.vararg and not a.kwarg and not a.defaults and not X.state_syms(r):
                    self._recs[name] = ([x.arg for x in a.args], r)
        return self._recs[name]

    def init(self, ctx, params, paths):
        E = Eval(ctx, dict(params))
        E.recs = self._rec
        try:
            exc = self._raised(E, '__init__')
        except Err as ex:
            raise NotEvaluable('constructor: %s' % ex)
        if exc:
            return exc, None
        st = {}
        for p in paths:
            st[p] = self._ev_state(E, self.post('__init__', p))
        return None, st

    def _raised(self, E, m):
        for exc, g, loops, loc in self.raises(m):
            if g is FALSE:
                continue
            if self._guard(E, g, loops):
                return exc
        return None

    def _guard(self, E, g, loops):
        from .evalterm import truthy
        if not loops:
            return _bev(E, g)
        (k, n), rest = loops[0], loops[1:]
        if not isinstance(n, T):
            raise NotEvaluable('raise in unbounded loop')
        try:
            cnt = as_int(E.ev(n))
        except Err:
            return False            # the loop is not reached in this state
        for i in range(max(0, cnt)):
            E.env[k.args[0]] = i
            try:
                if self._guard(E, g, rest):
                    return True
            finally:
                E.env.pop(k.args[0], None)
        return False

    def step(self, ctx, params, state, m, args, paths):
        env = dict(params)
        env.update(state)
        env.update(args)
        E = Eval(ctx, env)
        E.recs = self._rec
        try:
            exc = self._raised(E, m)
        except Err as ex:
            return ('err', str(ex)), state
        if exc:
            return ('raise', exc), state
        try:
            r = ('ret', E.ev(self.ret(m)))
        except Err as ex:
            r = ('err', str(ex))
        ns = {}
        for p in paths:
            ns[p] = self._ev_state(E, self.post(m, p))
        return r, ns


def _bev(E, g):
    """truth of a condition; a test that cannot be evaluated does not matter when both arms agree"""
    from .evalterm import truthy
    while g.op == 'ite':
        try:
            d = truthy(E.ev(g.args[0]))
        except Err:
            a, b = _bev(E, g.args[1]), _bev(E, g.args[2])
            if a == b:
                return a
            raise
        g = g.args[1] if d else g.args[2]
    return truthy(E.ev(g))


def _objlist(t):
    if t.op == 'map':
        return t.args[1][0].op in ('new', 'obj')
    return bool(t.args) and all(a.op in ('new', 'obj') for a in t.args)


def _objlen(st, c):
    """length of a container of instances, without looking inside the instances"""
    def inst(a):
        return all((x.op == 'ref' and st.heap.get(x.args[0]) is not None and st.heap[x.args[0]].kind == 'inst') or x.op in ('new', 'obj')
                   for x in tm.leaves(a))
    if c.op == 'map' and inst(c.args[1][0]):
        return c.args[0]
    if c.op == 'list' and c.args and all(inst(a) for a in c.args):
        return tm.num(len(c.args))
    if c.op == 'cat':
        ls = [_objlen(st, p) for p in c.args]
        if all(x is not None for x in ls):
            r = tm.num(0)
            for x in ls:
                r = tm.add(r, x)
            return r
    return None


def _fzc(I, st, c):
    """freeze the conditions of a decision diagram only"""
    if c.op == 'ite':
        return tm.ite(I.fz(st, c.args[0]), _fzc(I, st, c.args[1]), _fzc(I, st, c.args[2]))
    return c


def _lift1(f, v, memo=None):
    if v.op == 'ite':
        memo = {} if memo is None else memo
        r = memo.get(v.dig)
        if r is None:
            r = memo[v.dig] = tm.ite(v.args[0], _lift1(f, v.args[1], memo), _lift1(f, v.args[2], memo))
        return r
    if memo is None:
        return f(v)
    r = memo.get(v.dig)
    if r is None:
        r = memo[v.dig] = f(v)
    return r


def _liftf(f, v, memo=None):
    """lift where results may be families"""
    if memo is not None and v.dig in memo:
        return memo[v.dig]
    if memo is None:
        memo = {}
    r = memo[v.dig] = _liftf1(f, v, memo)
    return r


def _liftf1(f, v, memo):
    if v.op == 'ite':
        a, b = _liftf(f, v.args[1], memo), _liftf(f, v.args[2], memo)
        if isinstance(a, FamT) or isinstance(b, FamT):
            if a is UNSET or a is UNDEF:
                return b
            if b is UNSET or b is UNDEF:
                return a
            if isinstance(a, FamT) and isinstance(b, FamT):
                bi = _fsub(b.inner, {b.k: a.k})
                if isinstance(a.inner, FamT) or isinstance(bi, FamT):
                    raise Opaque('conditional nested family')
                return FamT(tm.ite(v.args[0], a.n, b.n), a.k, tm.ite(v.args[0], a.inner, bi))
            raise Opaque('conditional family')
        return tm.ite(v.args[0], a, b)
    return f(v)


def _fsub(t, m):
    if isinstance(t, FamT):
        return FamT(_fsub(t.n, m), t.k, _fsub(t.inner, m))
    return tm.subst(t, m)


# -------------------------------------------------------------- normal forms
_cmemo = {}
_nmemo = {}


def _needs(x):
    r = _nmemo.get(x.dig)
    if r is None:
        r = x.op in ('cls', 'new', 'fn') or (x.op in tm.FOLDS and len(x.args[2]) > 2) or any(_needs(c) for c in tm.children(x))
        _nmemo[x.dig] = r
    return r


def canon(t, ren=None):
    """term key for comparison across programs: class names by last component"""
    memo = _cmemo if not ren else {}

    def rec(x):
        r = memo.get(x.dig)
        if r is not None:
            return r
        if not ren and not _needs(x):
            return x
        if x.op == 'cls':
            r = mk('cls', str(x.args[0]).split('.')[-1])
        elif x.op == 'new' and isinstance(x.args[0], str):
            r = mk('new', str(x.args[0]).split('.')[-1], tuple((n, rec(v)) for n, v in x.args[1]))
        elif x.op == 'fn':
            r = mk('fn', str(x.args[0]).split('.')[-1])
        elif x.op == 'sym' and ren and x.args[0] in ren:
            r = mk('sym', ren[x.args[0]], x.args[1])
        elif not x.args:
            r = x
        else:
            if x.op in tm.BINDERS:
                r = tm._subst_binder(x, rec)
                if r.op in tm.FOLDS:
                    r = tm.fold_order(r)
            else:
                na = tuple(tm._rec_arg(a, rec) for a in x.args)
                r = x if na == x.args else tm.rebuild(x, na)
        memo[x.dig] = r
        return r
    return rec(t)


def famkey(t):
    if isinstance(t, FamT):
        k = sym('$fam', 'int')
        return ('fam', canon(t.n).dig, famkey(_fsub(t.inner, {t.k: k})))
    return canon(_freek(t)).dig


def _freek(t):
    ks = [s for s in tm.syms(t) if s.args[0].startswith('k$')]
    if not ks:
        return t
    return tm.subst(t, {s: sym('$fam', 'int') for s in ks})
