"""Abstract interpreter: source -> value graph (gated terms), heap effects, events.

No program code is executed: every statement is transferred over an abstract
state (environment, heap of abstract cells, path condition).  Branches are
joined with gated (if-then-else) terms, loops are summarised in one pass over a
havocked body (closed forms where the recurrence is recognised, canonical
`fold` terms otherwise), calls to analysed code are inlined with a recursion
cut, calls to external code become uninterpreted terms.
"""
import ast
import time
import sys

from . import terms as tm
from .terms import (T, mk, num, strc, sym, ite, asbool, bnot, band, bor, lift,
                    add, sub, mul, div, neg, power, absv, length, index, cat,
                    drop, take, lastn, subseq, store, cmp_eq, cmp_ge, cmp_gt,
                    cmp_ne, is_none, subst, contains, fresh, mapseq, sumover,
                    bind, seqlist, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, INF)
from .program import Program, Func, Class, AnalysisError
from . import npmodel

sys.setrecursionlimit(20000)

UNSET = mk('unset')
MAX_DEPTH = 40
MAX_UNROLL = 6
SCALAR_PARAMS = {'num', 'score', 'shuffle', 'seed', 'data_file', 'data_base_path',
                 'window_size', 'alpha'}
BOX_PARAMS = {'X', 'x', 'y', 'scores', 'y_true', 'y_pred', 'initial_X', 'initial_y',
              'initial_window_X', 'initial_window_y', 'feature_mins', 'feature_maxes',
              'estimator_weights', 'min_val', 'max_val'}


class Cell:
    __slots__ = ('kind', 'cls', 'fields', 'content', 'origin', 'ks', 'maxlen', 'name', 'tok', 'dtype')

    def __init__(self, kind, cls=None, fields=None, content=None, origin='fresh', ks=(), maxlen=None, name=None, dtype=None):
        self.kind, self.cls, self.fields, self.content = kind, cls, fields, content
        self.origin, self.ks, self.maxlen, self.name = origin, ks, maxlen, name
        self.dtype = dtype      # element type of an array narrower than double precision
        self.tok = (0, 0, 0)    # per nesting depth: last time slots were rebound

    def rep(self, **kw):
        c = Cell(self.kind, self.cls, self.fields, self.content, self.origin, self.ks, self.maxlen, self.name, self.dtype)
        c.tok = self.tok
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class St:
    __slots__ = ('env', 'heap', 'pc')

    def __init__(self, env, heap, pc=TRUE):
        self.env, self.heap, self.pc = env, heap, pc

    def copy(self):
        return St(dict(self.env), dict(self.heap), self.pc)

    def become(self, o):
        self.env, self.heap, self.pc = o.env, o.heap, o.pc


class Event:
    __slots__ = ('kind', 'guard', 'loops', 'data', 'loc', 'fn')

    def __init__(self, kind, guard, loops, data, loc, fn):
        self.kind, self.guard, self.loops, self.data, self.loc, self.fn = kind, guard, loops, data, loc, fn

    def __repr__(self):
        return '<%s %s %s @%s>' % (self.kind, self.data, self.guard, self.loc)


def _stringy(s):
    """a set of strings (their hashes, hence the order, change from process to process)"""
    a = s.args[0]
    es = a.args[1] if a.op == 'map' else a.args
    for e in es if isinstance(es, tuple) else ():
        if isinstance(e, T) and (e.op in ('str', 'fstr', 'strcat') or e.op == 'tuple' and any(x.op in ('str', 'fstr', 'strcat') for x in e.args)):
            return True
        if isinstance(e, T) and e.op == 'call' and e.args[0] in ('str', 'builtins.str', 'repr', 'builtins.repr'):
            return True
    return False


def ref(oid, at=(), path=()):
    return mk('ref', oid, tuple(at), tuple(path))


class Unsupported(Exception):
    pass


class _Endless(Exception):
    pass


_ARRAYISH = {'rng', 'map', 'store', 'stores', 'call', 'array', 'full', 'zeros', 'ones', 'poly', 'each', 'arr', 'alloc', 'perm', 'list', 'cat', 'sstore',
             'fill', 'rep', 'outer', 'take', 'drop', 'filter', 'reshape', 'ravel', 'sorted', 'rev'}


def _effectful(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
            ts = x.targets if hasattr(x, 'targets') else [x.target]
            if any(isinstance(y, (ast.Attribute, ast.Subscript)) and not isinstance(y.ctx, ast.Load) for t in ts for y in ast.walk(t)):
                return True
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            return True
    return False


def _recleaf(t):
    if t.op == 'ite':
        return _recleaf(t.args[1]) or _recleaf(t.args[2])
    return t.op in ('rec', 'plus')


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.events = []
        self.frames = []        # (Func, ctxkey, pc-stack entry)
        self.gpc = []
        self.recpath, self.reccnt = [], [[0]]
        self.loops = []         # (k, n)
        self.loc = None
        self.ctx = ''
        self.quiet = 0
        self.viewtok = {}
        self.ntok = 0
        self.uncount = {}
        self.wlog = []
        self.loose = 0
        self.opaque_ids = 0
        self.hooks = {}         # qual -> callable(interp, st, self, args, kw)
        self.notes = set()
        self.abstract_self = None
        self.budget = 400000

    # ------------------------------------------------------------ events
    def event(self, st, kind, **data):
        if self.quiet:
            return
        g = st.pc
        for p in reversed(self.gpc):
            g = band(p, g)
        self.events.append(Event(kind, g, tuple(self.loops), data, self.loc, self.frames[-1][0].qual if self.frames else None))

    def note(self, s):
        self.notes.add(s)

    # ------------------------------------------------------------ heap
    def alloc(self, st, node, cell, tag=''):
        key = '%s@%s:%s:%s' % (self.ctx, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), tag)
        ks = tuple(k for k, n in self.loops)
        cell = cell.rep(ks=ks)
        st.heap[key] = cell
        return ref(key, ks)

    def cell(self, st, r):
        return st.heap[r.args[0]]

    def _atsub(self, cell, r, t):
        at = r.args[1]
        if not cell.ks or at == cell.ks:
            return t
        m = {k: a for k, a in zip(cell.ks, at) if k is not a}
        return subst(t, m) if m else t

    def content(self, st, r):
        c = st.heap.get(r.args[0])
        if c is None:
            return mk('dangling', r.args[0])
        if c.kind == 'inst':
            return r
        t = self._atsub(c, r, c.content)
        for p in r.args[2]:
            t = self.apply_path(t, p)
        return t

    def apply_path(self, t, p):
        op = p[0]
        if op == 'asarray':
            return npmodel.asarray(t)
        if op == 'T':
            return npmodel.transpose(t)
        if op == 'idx':
            return self.pure_index(t, p[1])
        if op == 'reshape':
            return npmodel.reshape(t, p[1:])
        if op == 'ravel':
            return npmodel.ravel(t)
        if op == 'fld':
            return mk('attr', t, p[1])
        if op == 'fn':
            return npmodel.call(p[1], [t] + list(p[2]), dict(p[3]))
        return mk('path', t, p)

    def mkview(self, st, r, v):
        """an element of a container: where it lives and the value it had when taken"""
        x = mk('view', r, v)
        c = st.heap.get(r.args[0])
        if c is not None:
            q = sum(1 for p in r.args[2] if p[0] == 'idx')
            self.viewtok[x.dig] = c.tok[:q]
        return x

    def viewval(self, st, x):
        """current value of the element; by position unless the slots have been rebound since it was taken"""
        r, v = x.args
        c = st.heap.get(r.args[0]) if r.op == 'ref' else None
        tok = self.viewtok.get(x.dig)
        if c is None or tok is None or c.content is None or not tok or c.tok[:len(tok)] != tok:
            return v
        w = self.content(st, r)
        return v if w.op in ('undef', 'path') else w

    def _bump(self, c, path):
        d = min(2, sum(1 for p in path if p[0] == 'idx'))
        self.ntok += 1
        return tuple(self.ntok if i == d else t for i, t in enumerate(c.tok))

    def rd(self, st, v):
        def f(x):
            if x.op == 'ref':
                return self.content(st, x)
            if x.op == 'view':
                return self.viewval(st, x)
            if x.op == 'bmeth':
                return tm.mkl('attr', self.fz(st, x.args[0]), x.args[1])
            return x
        if v.op in ('ref', 'view', 'ite', 'bmeth'):
            return lift(f, v)
        return v

    def fz(self, st, v, depth=0, memo=None):
        """Deep-freeze: a pure term with no references."""
        if not _hasref(v):
            return v
        if depth > 12:
            return mk('deep')
        if memo is None:
            memo = {}

        def rec(x):
            if not _hasref(x):
                return x
            key = (x.dig, depth)
            r = memo.get(key)
            if r is None:
                r = memo[key] = rec1(x)
            return r

        def rec1(x):
            if x.op == 'view':
                return self.fz(st, self.viewval(st, x), depth + 1, memo)
            if x.op == 'ref':
                c = st.heap.get(x.args[0])
                if c is None:
                    return mk('dangling', x.args[0])
                if c.kind == 'inst':
                    return self.fz_inst(st, x, c, depth, memo)
                return self.fz(st, self.content(st, x), depth + 1, memo)
            if x.op == 'ite':
                return ite(rec(x.args[0]), rec(x.args[1]), rec(x.args[2]))
            if x.op == 'meth':
                return mk('fnv', str(x.args[0]))
            if x.op == 'bmeth':
                return tm.mkl('attr', self.fz(st, x.args[0], depth + 1, memo), x.args[1])
            if x.op in tm.BINDERS:
                return tm._subst_binder(x, rec)
            na = tuple(tm._rec_arg(a, rec) for a in x.args)
            return tm.rebuild(x, na)
        return rec(v)

    def fz_inst(self, st, r, c, depth, memo=None):
        if c.name:
            return mk('obj', c.name, r.args[1])
        if depth > 4:
            return mk('new', c.cls.qual, ())
        fs = []
        for n in sorted(c.fields):
            v = c.fields[n]
            v = self._atsub(c, r, v)
            fs.append((n, self.fz(st, v, depth + 3, memo)))
        return mk('new', c.cls.qual, tuple(fs))

    def box(self, st, v, node, tag='box'):
        """Give a plain (possibly mutable) value an identity."""
        if v.op == 'ite' and not _hasref(v) and not tm.is_scalar(v) and \
                all(x.op in _ARRAYISH and not tm.is_scalar(x) for x in tm.leaves(v)):
            return self.alloc(st, node, Cell('arr', content=v), tag)
        if v.op in ('num', 'bool', 'str', 'none', 'tuple', 'fn', 'cls', 'ext', 'mod', 'meth', 'bmeth', 'ref', 'view',
                    'ge0', 'gt0', 'eq0', 'ne0', 'eq', 'ne', 'undef', 'unset', 'len', 'count', 'super', 'ite', 'c', 'isnone',
                    'in', 'notin', 'lam', 'obj', 'shape', 'truthy', 'excv'):
            return v
        if v.op == 'sym' and v.args[1] in ('int', 'num', 'str', 'bool', 'cls'):
            return v
        if tm.is_scalar(v):
            return v
        return self.alloc(st, node, Cell('arr', content=v), tag)

    def newlist(self, st, node, content, kind='list', tag='list', maxlen=None, origin='fresh'):
        return self.alloc(st, node, Cell(kind, content=content, maxlen=maxlen, origin=origin), tag)

    def mutate(self, st, v, newcontent, how, node=None):
        """Replace the content of the cell(s) v denotes by newcontent(old)."""
        def go(s, x):
            if x.op == 'view':
                base = x.args[0]
                return go(s, base)
            if x.op != 'ref':
                if x.op not in ('undef', 'none'):
                    self.event(s, 'mutval', how=how, val=x)
                return NONE
            c = s.heap.get(x.args[0])
            if c is None or c.kind == 'inst':
                return NONE
            at, path = x.args[1], x.args[2]
            old = self._atsub(c, x, c.content)
            cur = old
            stack = []
            for p in path:
                stack.append((cur, p))
                cur = self.apply_path(cur, p)
            new = newcontent(cur)
            for base, p in reversed(stack):
                if p[0] == 'idx':
                    new = self.pure_store(base, p[1], new)
                elif p[0] in ('asarray', 'reshape', 'ravel'):
                    new = npmodel.unview(base, p, new)
                elif p[0] == 'T':
                    new = npmodel.transpose(new)
                elif p[0] == 'fld':
                    new = mk('setfld', base, p[1], new)
                else:
                    new = mk('viewstore', base, p, new)
            if c.maxlen is not None and c.maxlen is not NONE and not path:
                new = lastn(new, c.maxlen)
            self.event(s, 'mutate', oid=x.args[0], origin=c.origin, how=how, name=c.name, ref=x)
            self.wlog.append((x.args[0], at))
            if c.ks and at != c.ks and not any(a.op == 'sym' for a in at):
                new = mk('eupd', c.content, at, new)
            s.heap[x.args[0]] = c.rep(content=new, tok=c.tok if new is c.content else self._bump(c, path))
            return NONE
        self.dispatch(st, v, go)

    def getfield(self, st, r, name):
        c = self.cell(st, r)
        v = c.fields.get(name)
        if v is None:
            return None
        return self._atsub(c, r, v)

    def setfield(self, st, r, name, val):
        c = self.cell(st, r)
        at = r.args[1]
        f = dict(c.fields)
        if c.ks and at != c.ks and not any(a.op == 'sym' for a in at):
            val = mk('eupd', f.get(name, UNSET), at, val)
        f[name] = val
        st.heap[r.args[0]] = c.rep(fields=f)
        self.wlog.append((r.args[0], at))
        self.event(st, 'setfield', oid=r.args[0], field=name, origin=c.origin, name=c.name, val=val)

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """State a under condition c, b otherwise."""
        env = {}
        joins = []
        for n in set(a.env) | set(b.env):
            x, y = a.env.get(n, UNDEF), b.env.get(n, UNDEF)
            if x is not y and x.op == 'ref' and y.op == 'ref' and self._joinable(a, b, x, y):
                joins.append((x, y))
                env[n] = x
                continue
            env[n] = x if x is y else ite(c, x, y)
        heap = self.merge_heap(c, a.heap, b.heap)
        for x, y in joins:
            if heap is a.heap or heap is b.heap:
                heap = dict(heap)
            heap[x.args[0]] = self.merge_cell(c, a.heap[x.args[0]], b.heap[y.args[0]])
            heap.pop(y.args[0], None)
        return St(env, heap, bor(a.pc, b.pc))

    def _joinable(self, a, b, x, y):
        """two containers allocated in the two branches and known by this one name only"""
        if x.args[1:] != y.args[1:] or x.args[2] or x.args[0] in b.heap or y.args[0] in a.heap:
            return False
        p, q = a.heap.get(x.args[0]), b.heap.get(y.args[0])
        if p is None or q is None or p.kind != q.kind or p.kind not in ('list', 'arr', 'dict', 'set', 'deque') or p.ks != q.ks or p.maxlen is not q.maxlen \
                or p.origin != 'fresh' or q.origin != 'fresh' or p.content is None or q.content is None:
            return False
        return self._refcount(a, x.args[0]) == 1 and self._refcount(b, y.args[0]) == 1

    def _refcount(self, s, oid):
        n = 0
        for v in s.env.values():
            if isinstance(v, T) and any(z.op in ('ref', 'view') and oid in z.args for z in _refterms(v)):
                n += 1
        for c in s.heap.values():
            for v in list((c.fields or {}).values()) + ([c.content] if c.content is not None else []):
                if any(oid in z.args for z in _refterms(v)):
                    n += 1
        return n

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        heap = dict(h2)
        for o, c1 in h1.items():
            c2 = h2.get(o)
            if c2 is None:
                heap[o] = c1
            elif c1 is not c2:
                heap[o] = self.merge_cell(c, c1, c2)
        return heap

    def merge_cell(self, c, a, b):
        kind = a.kind if a.kind == b.kind else 'any'
        if a.ks != b.ks and len(a.ks) == len(b.ks):
            m = {y: x for x, y in zip(a.ks, b.ks) if x is not y}
            b = b.rep(ks=a.ks, content=None if b.content is None else tm.subst(b.content, m),
                      fields=None if b.fields is None else {n: (v if v is UNSET else tm.subst(v, m)) for n, v in b.fields.items()})
        fields = None
        if a.fields is not None:
            fields = {}
            for n in list(a.fields) + [x for x in (b.fields or {}) if x not in a.fields]:
                x, y = a.fields.get(n, UNSET), (b.fields or {}).get(n, UNSET)
                fields[n] = x if x is y else ite(c, x, y)
        content = a.content
        if a.content is not b.content and a.content is not None and b.content is not None:
            content = ite(c, a.content, b.content)
        tok = a.tok
        if a.tok != b.tok:
            self.ntok += 1
            tok = tuple(x if x == y else self.ntok for x, y in zip(a.tok, b.tok))
        return a.rep(kind=kind, fields=fields, content=content, tok=tok)

    def dispatch_arms(self, st, parts, fn):
        """one evaluation per distinct value, however many paths lead to it"""
        parts = [(c, x) for c, x in parts if x is not UNDEF and band(st.pc, c) is not FALSE] or parts[:1]
        c, x = parts[0]
        if len(parts) == 1:
            return self.dispatch(st, x, fn)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = band(st.pc, c), band(st.pc, bnot(c))
        r1 = self.dispatch(s1, x, fn)
        r2 = self.dispatch_arms(s2, parts[1:], fn)
        m = self.merge(c, s1, s2)
        st.heap = m.heap
        st.env = m.env
        return ite(c, r1, r2)

    def dispatch(self, st, v, fn):
        if v.op == 'ite':
            parts = tm.arms(v)
            if parts:
                return self.dispatch_arms(st, parts, fn)
            c = v.args[0]
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = band(st.pc, c), band(st.pc, bnot(c))
            if s1.pc is FALSE:
                r = self.dispatch(s2, v.args[2], fn)
                st.heap = s2.heap
                return r
            if s2.pc is FALSE:
                r = self.dispatch(s1, v.args[1], fn)
                st.heap = s1.heap
                return r
            r1 = self.dispatch(s1, v.args[1], fn)
            r2 = self.dispatch(s2, v.args[2], fn)
            m = self.merge(c, s1, s2)
            st.heap = m.heap
            st.env = m.env
            return ite(c, r1, r2)
        return fn(st, v)

    # ------------------------------------------------------------ names
    def lookup_name(self, st, name):
        if name in st.env:
            return st.env[name]
        fr = self.frames[-1] if self.frames else None
        if fr and fr[0].closure:
            cl = fr[0].closure
            if name in cl:
                return cl[name]
        mod = fr[0].module if fr else None
        if mod is not None:
            v = self.module_value(st, mod.name, name)
            if v is not None:
                return v
        return mk('ext', 'builtins.' + name)

    def module_value(self, st, modname, name):
        r = self.prog.lookup(modname, name)
        return self.target_value(st, r, name)

    def target_value(self, st, r, name=''):
        if r[0] == 'class':
            return mk('cls', self.prog.replace.get(r[1].name, r[1].qual))
        if r[0] == 'func':
            return mk('fn', r[1].qual)
        if r[0] == 'mod':
            return mk('mod', r[1])
        if r[0] == 'ext':
            return mk('ext', npmodel.canon_name(r[1]))
        if r[0] == 'expr':
            m, bs = r[1], r[2]
            vals = []
            for b in bs:
                if b[0] == 'assign':
                    vals.append(b[1])
            if len(vals) > 1:
                return sym('global:%s.%s' % (m.name, name))
            e = vals[0]
            if isinstance(e, ast.Constant):
                return self.const(e.value)
            if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Call)):
                key = 'global:%s.%s' % (m.name, name)
                if isinstance(e, ast.Call) and not (isinstance(e.func, ast.Name) and e.func.id in ('list', 'dict', 'set', 'deque', 'defaultdict')):
                    v = self.pure_module_expr(m, e)
                    if v is not None:
                        return v
                    if key not in st.heap:
                        st.heap[key] = Cell('any', content=sym(key), origin=('global', m.name, name), name=key)
                    return ref(key)
                kind = 'list' if isinstance(e, (ast.List, ast.ListComp)) else 'dict'
                if isinstance(e, ast.Set):
                    kind = 'set'
                if key not in st.heap:
                    st.heap[key] = Cell(kind, content=sym(key, kind), origin=('global', m.name, name), name=key)
                return ref(key)
            v = self.pure_module_expr(m, e)
            if v is not None:
                return v
            return sym('global:%s.%s' % (m.name, name))
        return None

    def pure_module_expr(self, m, e):
        """Evaluate a module-level constant expression (numbers, ext calls)."""
        if isinstance(e, (ast.List, ast.Dict)):
            return None
        f = Func(m.name + '.<module>', ast.parse('def _m(): pass').body[0], m)
        st = St({}, {})
        self.frames.append((f, self.ctx, (), ()))
        self.quiet += 1
        try:
            v = self.eval(e, st)
            v = self.fz(st, v)
            if any(x.op in ('rng',) for x in tm.walk(v)):
                return None
            return v
        except Exception:
            return None
        finally:
            self.quiet -= 1
            self.frames.pop()

    def const(self, v):
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return strc(v)
        if v is Ellipsis:
            return mk('ellipsis')
        return mk('const', repr(v))

    # ------------------------------------------------------------ expressions
    def eval(self, n, st):
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported('analysis budget exceeded')
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.note('unsupported expression %s' % type(n).__name__)
            return mk('opaque', type(n).__name__, ast.dump(n)[:200])
        return m(n, st)

    def ev(self, n, st):
        """evaluate and read the value"""
        return self.rd(st, self.eval(n, st))

    def evf(self, n, st):
        return self.fz(st, self.eval(n, st))

    def e_Constant(self, n, st):
        return self.const(n.value)

    def e_Name(self, n, st):
        return self.lookup_name(st, n.id)

    def e_Tuple(self, n, st):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.rd(st, self.eval(e.value, st))
                if v.op in ('tuple', 'list'):
                    out.extend(v.args)
                else:
                    out.append(mk('starred', self.fz(st, v)))
            else:
                out.append(self.eval(e, st))
        return mk('tuple', *out)

    def e_List(self, n, st):
        parts = []
        cur = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.rd(st, self.eval(e.value, st))
                if v.op == 'tuple':
                    v = mk('list', *v.args)
                parts.append(mk('list', *cur))
                cur = []
                parts.append(v)
            else:
                cur.append(self.eval(e, st))
        parts.append(mk('list', *cur))
        return self.newlist(st, n, cat(*parts))

    def e_Set(self, n, st):
        return self.newlist(st, n, mk('setv', *[self.evf(e, st) for e in n.elts]), kind='set')

    def e_Dict(self, n, st):
        t = mk('dict0')
        for k, v in zip(n.keys, n.values):
            if k is None:
                t = mk('dupd', t, self.evf(v, st))
            else:
                t = store(t, self.evf(k, st), self.eval(v, st))
        return self.newlist(st, n, t, kind='dict')

    def e_JoinedStr(self, n, st):
        return mk('fstr', tuple(self.evf(v.value, st) if isinstance(v, ast.FormattedValue) else strc(str(v.value)) for v in n.values))

    def e_Lambda(self, n, st):
        return self.closure(n, st)

    def closure(self, n, st):
        fr = self.frames[-1][0]
        q = '%s.<%s:%d:%d>' % (fr.qual, getattr(n, 'name', 'lambda'), n.lineno, n.col_offset)
        cl = dict(fr.closure or {})
        cl.update(st.env)
        key = q + '#%d' % len(self.prog.funcs)
        f = Func(q, n, fr.module, None, cl)
        self.prog.funcs[key] = f
        return mk('fn', key)

    def e_Starred(self, n, st):
        return mk('starred', self.evf(n.value, st))

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        v = self.box(st, v, n)
        st.env[n.target.id] = v
        return v

    def e_Await(self, n, st):
        return self.eval(n.value, st)

    def e_Yield(self, n, st):
        v = self.eval(n.value, st) if n.value else NONE
        v = self.box(st, v, n)
        y = st.env.get('$y')
        if y is not None:
            self.mutate(st, y, lambda c: cat(c, seqlist(v)), 'yield')
        return NONE

    def e_YieldFrom(self, n, st):
        v = self.rd(st, self.eval(n.value, st))
        v = self.as_seq(st, v)
        y = st.env.get('$y')
        self.mutate(st, y, lambda c: cat(c, v), 'yield')
        return NONE

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.USub):
            return neg(self.fz(st, v))
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Not):
            v = self.truth(st, v)
            return bnot(v)
        if isinstance(n.op, ast.Invert):
            v = self.fz(st, v)
            if v.op in ('ge0', 'gt0', 'eq0', 'ne0', 'eq', 'ne', 'in', 'notin'):
                return tm.vnot(v)
            return tm.mkl('invert', v)
        return mk('opaque', 'unary')

    def truth(self, st, v):
        """boolean of a python value (list kinds -> nonempty)."""
        def f(x):
            if x.op == 'ref':
                c = st.heap.get(x.args[0])
                if c is None or c.kind == 'inst':
                    return TRUE
                t = self.content(st, x)
                if c.kind in ('list', 'deque', 'dict', 'set'):
                    return asbool(cmp_gt(length(self.fz(st, t)), ZERO))
                return lift(f2, self.fz(st, t))
            return f2(self.fz(st, x))

        def f2(x):
            if x.op == 'sym' and x.args[1] in ('list', 'dict', 'deque', 'set'):
                return asbool(cmp_gt(length(x), ZERO))
            return asbool(x)
        return lift(f, v)

    def cond(self, n, st):
        return self.truth(st, self.eval(n, st))

    def e_BoolOp(self, n, st):
        # value semantics of and/or, with short-circuit state
        is_and = isinstance(n.op, ast.And)
        v = self.eval(n.values[0], st)
        return self._boolop(v, n.values[1:], st, is_and)

    def _boolop(self, v, rest, st, is_and):
        if not rest:
            return v
        c = self.truth(st, v)
        if c is TRUE:
            return self._boolop(self.eval(rest[0], st), rest[1:], st, is_and) if is_and else v
        if c is FALSE:
            return v if is_and else self._boolop(self.eval(rest[0], st), rest[1:], st, is_and)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = band(st.pc, c), band(st.pc, bnot(c))
        if is_and:
            if s1.pc is FALSE:
                return v
            r1 = self._boolop(self.eval(rest[0], s1), rest[1:], s1, is_and)
            r2 = v
            r1b = self.truth(s1, r1)
            isb = _isboolish(v) and _isboolish(r1)
            m = self.merge(c, s1, s2)
            st.become(m)
            if isb or v.op in ('truthy',):
                return ite(c, r1b, FALSE)
            return ite(c, r1, FALSE if _isboolish(v) else v)
        else:
            if s2.pc is FALSE:
                return v
            r2 = self._boolop(self.eval(rest[0], s2), rest[1:], s2, is_and)
            isb = _isboolish(v) and _isboolish(r2)
            r2b = self.truth(s2, r2)
            m = self.merge(c, s1, s2)
            st.become(m)
            if isb:
                return ite(c, TRUE, r2b)
            return ite(c, TRUE if _isboolish(v) else v, r2)

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if c is TRUE:
            return self.eval(n.body, st)
        if c is FALSE:
            return self.eval(n.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = band(st.pc, c), band(st.pc, bnot(c))
        if s1.pc is FALSE:
            r = self.eval(n.orelse, s2)
            st.become(s2)
            return r
        if s2.pc is FALSE:
            r = self.eval(n.body, s1)
            st.become(s1)
            return r
        r1 = self.eval(n.body, s1)
        r2 = self.eval(n.orelse, s2)
        st.become(self.merge(c, s1, s2))
        return ite(c, r1, r2)

    def kind_of(self, st, v):
        if v.op == 'ref':
            c = st.heap.get(v.args[0])
            if c is None:
                return 'any'
            if v.args[2]:
                return 'arr'
            return c.kind
        if v.op in ('list', 'cat', 'map', 'drop', 'take', 'filter', 'rep', 'sorted', 'reversed'):
            return 'list'
        if v.op == 'tuple':
            return 'tuple'
        if v.op == 'str':
            return 'str'
        if v.op == 'sym':
            return v.args[1]
        if v.op == 'ite':
            k1, k2 = self.kind_of(st, v.args[1]), self.kind_of(st, v.args[2])
            return k1 if k1 == k2 else 'any'
        if v.op in ('fstr', 'strcat'):
            return 'str'
        return 'any'

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(st, n.op, a, b, n)

    def binop(self, st, op, a, b, node):
        ka, kb = self.kind_of(st, a), self.kind_of(st, b)
        if isinstance(op, ast.Add) and (ka in ('list',) or kb in ('list',)):
            if ka in ('list', 'any', 'tuple') and kb in ('list', 'any', 'tuple'):
                return self.newlist(st, node, cat(self.rd(st, a), self.rd(st, b)))
        if isinstance(op, ast.Add) and ka == 'tuple' and kb == 'tuple':
            x, y = self.rd(st, a), self.rd(st, b)
            return mk('tuple', *(x.args + y.args))
        if isinstance(op, ast.Mult) and (ka == 'list' or kb == 'list'):
            s, k = (a, b) if ka == 'list' else (b, a)
            s, k = self.rd(st, s), self.fz(st, k)
            if k is ONE:
                return self.newlist(st, node, s)
            if tm.contains_op(s, 'ref'):
                self.event(st, 'replicate', val=s, count=k)
            if s.op == 'list' and len(s.args) == 1:
                return self.newlist(st, node, mapseq(k, fresh(), s.args[0]))
            return self.newlist(st, node, tm.mkl('rep', s, k))
        x, y = self.fz(st, a), self.fz(st, b)
        if ka == 'str' or kb == 'str':
            return tm.mkl('strcat', x, y)
        return self.arith(op, x, y)

    def arith(self, op, x, y):
        if x.op == 'undef' or y.op == 'undef':
            return UNDEF
        if isinstance(op, ast.Add) and (_recleaf(x) or _recleaf(y)):
            return tm.mkl('plus', x, y)         # numbers or sequences: the recursion's result is unknown here
        if isinstance(op, ast.Add):
            return add(x, y)
        if isinstance(op, ast.Sub):
            return sub(x, y)
        if isinstance(op, ast.Mult):
            return mul(x, y)
        if isinstance(op, ast.Div):
            return div(x, y)
        if isinstance(op, ast.Pow):
            return power(x, y)
        if isinstance(op, ast.Mod):
            return npmodel.mod(x, y)
        if isinstance(op, ast.FloorDiv):
            return npmodel.floordiv(x, y)
        if isinstance(op, ast.MatMult):
            return npmodel.call('numpy.matmul', [x, y], {})
        names = {ast.BitAnd: 'bitand', ast.BitOr: 'bitor', ast.BitXor: 'bitxor', ast.LShift: 'shl', ast.RShift: 'shr'}
        nm = names.get(type(op), 'binop')
        if nm == 'bitand' and _isboolish(x) and _isboolish(y):
            return tm.mkl('maskand', *sorted((x, y), key=lambda t: t.dig))
        if nm == 'bitor' and _isboolish(x) and _isboolish(y):
            return tm.mkl('maskor', *sorted((x, y), key=lambda t: t.dig))
        return tm.mkl(nm, x, y)

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            c = self.selfcompare(n, op, r, st, left, right) or self.compare(st, op, left, right)
            res = c if res is None else ite(asbool(res), asbool(c), FALSE)
            left = right
        return res

    def selfcompare(self, n, op, r, st, a, b):
        """x == x and x != x: the test for a missing number"""
        if len(n.ops) != 1 or not isinstance(op, (ast.Eq, ast.NotEq)) or a is not b or ast.dump(n.left) != ast.dump(r):
            return None
        if a.op in ('view', 'ref'):
            x = self.fz(st, a)          # a given value or an element of an array
            a = x if x.op in ('idx', 'sym') else a
        if a.op in ('num', 'str', 'bool', 'none', 'ref', 'list', 'tuple') or tm.is_int(a) or a.op not in ('sym', 'call', 'elem', 'poly', 'pow', 'ite', 'idx'):
            return None
        c = asbool(npmodel.isnan_(a))
        return c if isinstance(op, ast.NotEq) else lift(tm.vnot, c)

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            x, y = self.rd(st, a), self.rd(st, b)
            if y is NONE:
                c = lift(lambda v: FALSE if v.op in ('ref', 'obj') else is_none(v), x)
            elif x is NONE:
                c = lift(lambda v: FALSE if v.op in ('ref', 'obj') else is_none(v), y)
            elif y.op == 'bool' or x.op == 'bool':
                c = cmp_eq(self.fz(st, x), self.fz(st, y))
            else:
                c = TRUE if a is b and a.op in ('ref', 'cls', 'ext') else tm.mkl('eq', *sorted((self.fz(st, x), self.fz(st, y)), key=lambda t: t.dig))
            return c if isinstance(op, ast.Is) else lift(lambda v: bnot(asbool(v)), c)
        ka, kb = self.kind_of(st, a), self.kind_of(st, b)
        x, y = self.fz(st, a), self.fz(st, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            if b.op == 'ref' and self.cell(st, b).kind == 'inst':
                pass
            c = lift(lambda p, q: npmodel.contains_(p, q), x, y)
            return c if isinstance(op, ast.In) else lift(tm.vnot, c)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if ka in ('list', 'dict', 'set') and kb in ('list', 'dict', 'set'):
                if y.op == 'list' and not y.args:
                    c = cmp_eq(length(x), ZERO)
                elif x.op == 'list' and not x.args:
                    c = cmp_eq(length(y), ZERO)
                else:
                    c = tm.mkl('eq', *sorted((x, y), key=lambda t: t.dig))
            else:
                c = cmp_eq(x, y)
            return c if isinstance(op, ast.Eq) else lift(tm.vnot, c)
        if isinstance(op, ast.Gt):
            return cmp_gt(x, y)
        if isinstance(op, ast.GtE):
            return cmp_ge(x, y)
        if isinstance(op, ast.Lt):
            return cmp_gt(y, x)
        if isinstance(op, ast.LtE):
            return cmp_ge(y, x)
        return mk('opaque', 'cmp')

    # ------------------------------------------------------------ subscripts
    def eval_index(self, sl, st):
        """-> ('slice', lo, hi, step) | ('i', term)"""
        if isinstance(sl, ast.Slice):
            lo = self.evf(sl.lower, st) if sl.lower else NONE
            hi = self.evf(sl.upper, st) if sl.upper else NONE
            step = self.evf(sl.step, st) if sl.step else NONE
            return mk('slice', lo, hi, step)
        if isinstance(sl, ast.Tuple):
            return mk('tuple', *[self.eval_index(e, st) for e in sl.elts])
        v = self.eval(sl, st)
        k = self.kind_of(st, v)
        v = self.fz(st, v)
        if v.op == 'call' and v.args[0] == 'slice' and v.args[1]:
            a = list(v.args[1])
            if len(a) == 1:
                a = [NONE, a[0], NONE]
            while len(a) < 3:
                a.append(NONE)
            return mk('slice', *a)
        return v

    def pure_index(self, t, i):
        def f(x, j):
            if x.op == 'undef' or j.op == 'undef':
                return UNDEF
            if j.op == 'slice':
                lo, hi, step = j.args
                if step is NONE or step is ONE:
                    return subseq(x, lo, hi)
                if step.op == 'num' and step.args[0] == -1 and lo is NONE and hi is NONE:
                    return npmodel.reversed_(x)
                return mk('stepslice', x, lo, hi, step)
            return npmodel.index(x, j)
        return lift(f, t, i)

    def pure_store(self, t, i, v):
        def f(x, j, w):
            if j.op == 'slice':
                lo, hi, step = j.args
                if lo is NONE and hi is NONE and step is NONE:
                    return mk('fill', x, w) if w.op in ('num', 'sym') else w
                L = length(x)
                lo2 = ZERO if lo is NONE else lo
                if tm._isneg(lo2):
                    lo2 = add(L, lo2)
                hi2 = L if hi is NONE else hi
                if tm._isneg(hi2):
                    hi2 = add(L, hi2)
                if w.op == 'list' and not w.args and step is NONE:
                    return cat(take(x, lo2), drop(x, hi2))
                return mk('sstore', x, j, w)
            return store(x, j, w)
        return lift(f, t, i, v)

    def e_Subscript(self, n, st):
        base = self.eval(n.value, st)
        i = self.eval_index(n.slice, st)
        return self.subscript(st, base, i, n)

    def subscript(self, st, base, i, n):
        def go(s, b):
            if b.op == 'ref' and self.cell(s, b).kind == 'inst':
                c = self.cell(s, b)
                f = self.prog.find_method(c.cls, '__getitem__')
                if f:
                    return self.call_func(s, f, [b, i], {}, n)
                return mk('opaque', 'getitem')
            cur = self.rd(s, b)
            if b.op == 'ext' or b.op == 'cls':
                return b
            r = self.pure_index(cur, i)
            k = self.kind_of(s, b)
            if b.op in ('ref', 'view'):
                base_ref = b.args[0] if b.op == 'view' else b
                if i.op == 'slice' and k in ('list', 'deque', 'str', 'tuple'):
                    return self.newlist(s, n, r, tag='slice')
                if k == 'dict':
                    self.event(s, 'dictread', key=i, d=self.fz(s, cur))

                def leaf(x):
                    if x.op in ('ref', 'tuple', 'cls', 'fn', 'num', 'bool', 'str', 'none', 'undef'):
                        return x
                    if i.op == 'slice' or (i.op == 'tuple' and any(e.op == 'slice' for e in i.args)):
                        return ref(base_ref.args[0], base_ref.args[1], base_ref.args[2] + (('idx', i),)) if base_ref.op == 'ref' else x
                    if base_ref.op == 'ref':
                        return self.mkview(s, ref(base_ref.args[0], base_ref.args[1], base_ref.args[2] + (('idx', i),)), x)
                    return x
                return lift(leaf, r)
            return r
        return self.dispatch(st, base, go)

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, n, st):
        base = self.eval(n.value, st)
        return self.getattr(st, base, n.attr, n)

    def getattr(self, st, base, name, n):
        def go(s, b):
            if b.op == 'mod':
                v = self.module_value(s, b.args[0], name)
                return v if v is not None else mk('opaque', 'missing', b.args[0] + '.' + name)
            if b.op == 'ext':
                q = npmodel.canon_name(b.args[0] + '.' + name)
                cv = npmodel.const_ext(q)
                return cv if cv is not None else mk('ext', q)
            if b.op == 'cls':
                c = self.prog.classes[b.args[0]]
                f = self.prog.find_method(c, name)
                if f:
                    return mk('fn', f.qual)
                if c.qual + '.' + name in self.prog.classes:
                    return mk('cls', c.qual + '.' + name)
                return self.class_attr(s, c, name) or mk('attr', b, name)
            if b.op == 'super':
                c = self.prog.classes[b.args[0]]
                f = self.prog.find_method(self.prog.classes[b.args[2]], name, after=c)
                if f is None:
                    return mk('ext', 'builtins.object.' + name)
                return mk('meth', f.qual, b.args[1])
            if b.op == 'ref':
                cell = s.heap.get(b.args[0])
                if cell is not None and cell.kind == 'inst' and not b.args[2]:
                    return self.inst_attr(s, b, cell, name, n)
                if name == 'T':
                    return ref(b.args[0], b.args[1], b.args[2] + (('T',),))
                if name in npmodel.DATA_ATTRS:
                    return npmodel.data_attr(self.fz(s, self.rd(s, b)), name)
                return mk('bmeth', b, name)
            if b.op == 'view':
                if name in npmodel.DATA_ATTRS:
                    return npmodel.data_attr(self.fz(s, b), name)
                return mk('bmeth', b, name)
            if b.op == 'undef':
                return UNDEF
            if b.op == 'unset':
                return UNDEF
            if name in npmodel.DATA_ATTRS:
                return npmodel.data_attr(self.fz(s, b), name)
            return mk('bmeth', b, name)
        return self.dispatch(st, base, go)

    def class_attr(self, st, c, name):
        r = self.prog.find_attr(c, name)
        if r is None:
            return None
        k, e = r
        if isinstance(e, ast.Constant):
            return self.const(e.value)
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Call)):
            key = 'class:%s.%s' % (k.qual, name)
            kind = 'list' if isinstance(e, (ast.List, ast.ListComp)) else 'dict' if isinstance(e, (ast.Dict, ast.DictComp)) else 'any'
            if isinstance(e, ast.Call):
                q = self.prog.resolve_expr(k.module, e.func)
                if q[0] == 'class':
                    v = self.pure_module_expr(k.module, e)
                    if key not in st.heap:
                        # shared instance object
                        st.heap[key] = Cell('any', content=sym(key), origin=('class', k.qual, name), name=key)
                    return ref(key)
            if key not in st.heap:
                st.heap[key] = Cell(kind, content=sym(key, kind), origin=('class', k.qual, name), name=key)
            return ref(key)
        v = self.pure_module_expr(k.module, e)
        return v if v is not None else mk('attr', mk('cls', k.qual), name)

    def inst_attr(self, st, b, cell, name, n):
        v = self.getfield(st, b, name)
        if v is not None:
            cv = None
            if v is UNSET or UNSET in tm.leaves(v):
                cv = self.class_attr(st, cell.cls, name)

            def leaf(x):
                if x.op == 'unset':
                    return UNDEF if cv is None else cv
                return x
            if cv is not None:
                return lift(leaf, v)
            if v is UNSET or UNSET in tm.leaves(v):
                self.event(st, 'maybe_unset', field=name, oid=b.args[0], definite=v is UNSET, val=v)
                v = lift(leaf, v)
            return v
        f = self.prog.find_method(cell.cls, name)
        if f is not None:
            if f.has_deco('property') or f.has_deco('cached_property'):
                if f.has_deco('cached_property'):
                    self.event(st, 'cached', func=f.qual)
                return self.call_func(st, f, [b], {}, n)
            if f.has_deco('staticmethod'):
                return mk('fn', f.qual)
            if f.has_deco('classmethod'):
                return mk('meth', f.qual, mk('cls', cell.cls.qual))
            return mk('meth', f.qual, b)
        v = self.class_attr(st, cell.cls, name)
        if v is not None:
            return v
        if cell.cls.qual + '.' + name in self.prog.classes:
            return mk('cls', cell.cls.qual + '.' + name)
        for k in self.prog.mro(cell.cls):
            if k.qual + '.' + name in self.prog.classes:
                return mk('cls', k.qual + '.' + name)
        if name == '__class__':
            return mk('cls', cell.cls.qual)
        if name == '__dict__':
            return mk('opaque', '__dict__')
        self.event(st, 'noattr', field=name, cls=cell.cls.qual, oid=b.args[0])
        return UNDEF if cell.name else mk('opaque', 'noattr', name)

    # ------------------------------------------------------------ comprehension
    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, 'list')

    def e_SetComp(self, n, st):
        self.loose += 1
        r = self.comp(n, st, 'list')
        self.loose -= 1
        return self.newlist(st, n, tm.mkl('setof', self.fz(st, r)), kind='set', tag='setc')

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def comp(self, n, st, kind):
        tmp = '$c%d_%d' % (n.lineno, n.col_offset)
        saved = {}
        targets = []
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    targets.append(x.id)
        for t in targets:
            saved[t] = st.env.get(t)
        if kind == 'dict':
            st.env[tmp] = self.newlist(st, n, mk('dict0'), kind='dict', tag='comp')
            inner = ast.Assign(targets=[ast.Subscript(value=ast.Name(id=tmp, ctx=ast.Load()), slice=n.key, ctx=ast.Store())], value=n.value)
        else:
            st.env[tmp] = self.newlist(st, n, mk('list'), tag='comp')
            inner = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=tmp, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[n.elt], keywords=[]))
        ast.copy_location(inner, n)
        for x in ast.walk(inner):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, n)
        body = [inner]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(test=c, body=body, orelse=[]), n)]
            body = [ast.copy_location(ast.For(target=g.target, iter=g.iter, body=body, orelse=[]), n)]
        out = []
        self.exec_block(body, st, out)
        r = st.env.pop(tmp)
        for t in targets:
            if saved[t] is None:
                st.env.pop(t, None)
            else:
                st.env[t] = saved[t]
        return r

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st):
        self.loc = (self.frames[-1][0].module.path if self.frames else '?', n.lineno)
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in st.env:
            fr = self.frames[-1]
            cls = fr[0].cls
            selfv = st.env.get(self._self_name(fr[0]), NONE)
            if n.args:
                c0 = self.eval(n.args[0], st)
                if c0.op == 'cls':
                    cls = self.prog.classes[c0.args[0]]
                if len(n.args) > 1:
                    selfv = self.eval(n.args[1], st)
            dyn = self.cell(st, selfv).cls.qual if selfv.op == 'ref' else cls.qual
            return mk('super', cls.qual, selfv, dyn)
        fv = self.eval(f, st)
        loose = isinstance(f, ast.Name) and f.id in ('sorted', 'set', 'frozenset', 'sum', 'min', 'max', 'any', 'all', 'len')
        self.loose += loose
        args, kw = self.eval_args(n, st)
        self.loose -= loose
        return self.call(st, fv, args, kw, n)

    def setorder(self, st, x):
        """the elements of a set are taken in its iteration order, which the result can show"""
        for s in tm.leaves(x):
            if s.op == 'setof' and not self.loose and _stringy(s):
                self.event(st, 'setorder', name='the order of a set', val=s)

    def _self_name(self, func):
        a = func.node.args
        pa = list(a.posonlyargs) + list(a.args)
        return pa[0].arg if pa else 'self'

    def eval_args(self, n, st):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.rd(st, self.eval(a.value, st))
                if v.op in ('tuple', 'list'):
                    args.extend(v.args)
                else:
                    args.append(mk('starred', v))
            else:
                args.append(self.eval(a, st))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.rd(st, self.eval(k.value, st))
                d = _dict_items(v)
                if d is not None:
                    kw.update(d)
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = self.eval(k.value, st)
        return args, kw

    def call(self, st, fv, args, kw, n):
        def go(s, f):
            op = f.op
            if op == 'cls':
                return self.instantiate(s, self.prog.classes[f.args[0]], args, kw, n)
            if op == 'fn':
                return self.call_func(s, self.prog.funcs[f.args[0]], args, kw, n)
            if op == 'meth':
                fn = self.prog.funcs[f.args[0]]
                if fn.has_deco('staticmethod'):
                    return self.call_func(s, fn, args, kw, n)
                return self.call_func(s, fn, [f.args[1]] + args, kw, n)
            if op == 'ext':
                return npmodel.ext_call(self, s, f.args[0], args, kw, n)
            if op == 'bmeth':
                return npmodel.method_call(self, s, f.args[0], f.args[1], args, kw, n)
            if op == 'undef':
                return UNDEF
            if op == 'partial':
                a0 = list(f.args[1]) + args
                k0 = dict(f.args[2])
                k0.update(kw)
                return self.call(s, f.args[0], a0, k0, n)
            if op == 'ref':
                c = self.cell(s, f)
                if c.kind == 'inst':
                    m = self.prog.find_method(c.cls, '__call__')
                    if m:
                        return self.call_func(s, m, [f] + args, kw, n)
            # calling a value: a user-supplied class or function
            fzv = self.fz(s, f)
            a = tuple(self.fz(s, x) for x in args)
            k = tuple(sorted((x, self.fz(s, y)) for x, y in kw.items()))
            self.event(s, 'callv', func=fzv, args=a, kw=k)
            return self.alloc(s, n, Cell('opaque', content=tm.mkl('new', fzv, a, k)), 'newv')
        return self.dispatch(st, fv, go)

    def instantiate(self, st, c, args, kw, n):
        r = self.alloc(st, n, Cell('inst', cls=c, fields={}), 'inst:' + c.name)
        f = self.prog.find_method(c, '__init__')
        if f is not None:
            self.call_func(st, f, [r] + args, kw, n)
        elif any(b for k in self.prog.mro(c) for b in k.ext_bases if b.split('.')[-1] == 'namedtuple'):
            pass
        elif self._dataclass(c):
            self.init_dataclass(st, c, r, args, kw, n)
        return r

    def _dataclass(self, c):
        return any('dataclass' in ast.unparse(d) for d in c.node.decorator_list)

    def init_dataclass(self, st, c, r, args, kw, n):
        names = []
        for b in c.node.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                names.append((b.target.id, b.value))
        for i, (nm, dflt) in enumerate(names):
            if i < len(args):
                v = args[i]
            elif nm in kw:
                v = kw[nm]
            elif dflt is not None:
                v = self.eval(dflt, st)
            else:
                v = UNDEF
            self.setfield(st, r, nm, v)

    def bind_args(self, st, func, args, kw, n):
        a = func.node.args
        pos = list(a.posonlyargs) + list(a.args)
        env = {}
        star = [x for x in args if x.op == 'starred']
        args = [x for x in args if x.op != 'starred']
        for p, v in zip(pos, args):
            env[p.arg] = v
        extra = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = mk('tuple', *extra)
        elif extra:
            self.event(st, 'argerror', func=func.qual, what='too many positional arguments')
        kw = dict(kw)
        dstar = kw.pop('**', None)
        rest = {}
        names = {p.arg for p in pos} | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                env[k] = v
            else:
                rest[k] = v
        dn = pos[len(pos) - len(a.defaults):]
        for p, d in zip(dn, a.defaults):
            if p.arg not in env:
                env[p.arg] = self.default_value(st, func, p.arg, d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.default_value(st, func, p.arg, d)
        if a.kwarg:
            t = mk('dict0')
            for k in sorted(rest):
                t = store(t, strc(k), rest[k])
            if dstar is not None:
                t = dstar if not rest else mk('dupd', dstar, t)
            env[a.kwarg.arg] = self.newlist(st, n, t, kind='dict', tag='kwargs:' + func.qual)
        elif rest:
            self.event(st, 'argerror', func=func.qual, what='unexpected keyword %s' % sorted(rest))
        elif dstar is not None and dstar.op != 'dict0':
            self.event(st, 'kwspread', func=func.qual, val=self.fz(st, dstar))
        for p in pos + list(a.kwonlyargs):
            if p.arg not in env:
                env[p.arg] = UNDEF if not star else mk('starredarg', star[0], p.arg)
                if not star:
                    self.event(st, 'argerror', func=func.qual, what='missing argument %s' % p.arg)
        return env

    def default_value(self, st, func, name, d):
        if isinstance(d, ast.Constant):
            return self.const(d.value)
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp)):
            key = 'default:%s.%s' % (func.qual, name)
            kind = 'list' if isinstance(d, ast.List) else 'dict' if isinstance(d, ast.Dict) else 'any'
            if key not in st.heap:
                st.heap[key] = Cell(kind, content=sym(key, kind), origin=('default', func.qual, name), name=key)
            return ref(key)
        v = self.pure_module_expr(func.module, d)
        return v if v is not None else mk('opaque', 'default', name)

    def call_func(self, st, func, args, kw, n):
        if func.qual in self.hooks:
            r = self.hooks[func.qual](self, st, args, kw, n)
            if r is not None:
                return r
        node = func.node
        depth = len(self.frames)
        act = [i for i, fr in enumerate(self.frames) if fr[0].node is node]
        unroll = bool(act) and len(act) < MAX_UNROLL and depth <= MAX_DEPTH and st.pc is TRUE and all(g is TRUE for g in self.gpc[act[0] + 1:])
        if act and not unroll and len(act) < MAX_UNROLL and depth <= MAX_DEPTH:
            # descent through distinct objects of the heap is finite under any guard
            seen = {x for i in act for x in self.frames[i][2]}
            last = self.frames[act[-1]][3]
            unroll = any(all(y.op == 'ref' and y not in seen and self.kind_of(st, y) == 'inst' for y in tm.leaves(x) if y is not NONE)
                         and (x is not NONE or i < len(last) and last[i] is not NONE) for i, x in enumerate(args))
        if act and not unroll or depth > MAX_DEPTH:
            a = tuple(self.fz(st, x) if x.op != 'ref' or self.kind_of(st, x) != 'inst' else self.fz(st, x) for x in args)
            k = tuple(sorted((x, self.fz(st, y)) for x, y in kw.items()))
            if _effectful(node):
                self.event(st, 'unsupported', what='recursion of %s with effects' % func.name)
            self.event(st, 'reccall', func=func.qual, args=a, kw=k, raw=tuple(args))
            self.prog.recs.setdefault(func.name, func)
            if self.prog.recs[func.name] is not func and self.prog.recs[func.name] is not None and self.prog.recs[func.name].node is not func.node:
                self.prog.recs[func.name] = None        # two recursive functions of this name
            return tm.mkl('rec', func.name, a, k)
        for d in func.decos:
            if 'jit' in d or 'cache' in d.lower() or 'memo' in d.lower():
                self.event(st, 'deco', func=func.qual, deco=d, args=tuple(self.fz(st, x) for x in args), args_raw=tuple(args))
        abs_self = args[0] if args else None
        if func.abstract and not isinstance(node, ast.Lambda):
            return self.call_abstract(st, func, args, kw, n)
        if func.has_deco('contextmanager'):
            return mk('opaque', 'ctx')
        env = self.bind_args(st, func, args, kw, n)
        for k in list(env):
            env[k] = self.box(st, env[k], n, 'arg:' + func.name + ':' + k)
        if func.is_gen:
            env['$y'] = self.newlist(st, n, mk('list'), tag='gen:' + func.qual)
            self.event(st, 'gencall', func=func.qual)
        saved_ctx, saved_loc = self.ctx, self.loc
        self.ctx = '%s/%s:%d:%d' % (self.ctx, func.name, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))
        if unroll:
            self.recpath.append(tm.num(self.reccnt[act[-1] + 1][0] + 1))
            self.reccnt[act[-1] + 1][0] += 1
        self.reccnt.append([0])
        self.frames.append((func, self.ctx, {y for x in args for y in tm.leaves(x) if y.op == 'ref'}, tuple(args)))
        self.gpc.append(st.pc)
        s = St(env, st.heap, TRUE)
        s.heap = dict(st.heap)
        out = []
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body, s)
                out.append(('return', s, v))
            else:
                if self.exec_block(node.body, s, out):
                    out.append(('return', s, NONE))
        finally:
            self.gpc.pop()
            self.frames.pop()
            self.reccnt.pop()
            if unroll:
                self.recpath.pop()
            self.ctx, self.loc = saved_ctx, saved_loc
        rets = [(o[1], o[2]) for o in out if o[0] == 'return']
        if not rets:
            st.pc = FALSE
            return UNDEF
        rs, rv = rets[-1]
        heap, val = rs.heap, rv
        for s1, v1 in reversed(rets[:-1]):
            heap = self.merge_heap(s1.pc, s1.heap, heap)
            val = ite(s1.pc, v1, val)
        st.heap = heap
        if func.is_gen:
            return env['$y']
        return val

    def call_abstract(self, st, func, args, kw, n):
        """Abstract method: an opaque effect on the receiver's hidden state."""
        selfv = args[0]
        a = tuple(self.fz(st, x) for x in args[1:])
        k = tuple(sorted((x, self.fz(st, y)) for x, y in kw.items()))
        names = [p.arg for p in func.node.args.args][1:]
        # canonical positional arguments
        full = list(a)
        kd = dict(k)
        for nm in names[len(a):]:
            if nm in kd:
                full.append(kd.pop(nm))
            else:
                i = names.index(nm) - (len(names) - len(func.node.args.defaults))
                if i >= 0:
                    dv = func.node.args.defaults[i]
                    full.append(self.const(dv.value) if isinstance(dv, ast.Constant) else mk('opaque', 'd'))
        a = tuple(full)
        k = tuple(sorted(kd.items()))
        state = self.getfield(st, selfv, '$state') if selfv.op == 'ref' else None
        if state is None:
            state = sym('self.$state')
        self.event(st, 'abscall', name=func.name, args=a, kw=k, state=state)
        if func.name in ('fit_partial', 'update', 'remove'):
            c = self.cell(st, selfv)
            f = dict(c.fields)
            f['$state'] = tm.mkl('after', state, func.name, a, k)
            st.heap[selfv.args[0]] = c.rep(fields=f)
            self.wlog.append((selfv.args[0], selfv.args[1]))
            return selfv
        if func.name in ('score_partial', 'transform_partial', 'get', '_evaluate', '_combine', '_projector'):
            return tm.mkl('ret', func.name, state, a, k)
        c = self.cell(st, selfv)
        f = dict(c.fields)
        f['$state'] = tm.mkl('after', state, func.name, a, k)
        st.heap[selfv.args[0]] = c.rep(fields=f)
        return tm.mkl('ret', func.name, state, a, k)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, out):
        for s in stmts:
            if not self.exec(s, st, out):
                return False
            if st.pc is FALSE:
                return False
        return True

    def exec(self, n, st, out):
        self.loc = (self.frames[-1][0].module.path if self.frames else '?', getattr(n, 'lineno', 0))
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.note('unsupported statement %s' % type(n).__name__)
            self.event(st, 'unsupported', what=type(n).__name__)
            return True
        return m(n, st, out)

    def s_Expr(self, n, st, out):
        if isinstance(n.value, ast.Constant):
            return True
        self.eval(n.value, st)
        return True

    def s_Pass(self, n, st, out):
        return True

    def s_Global(self, n, st, out):
        self.event(st, 'global', names=tuple(n.names))
        st.env.setdefault('$globals', mk('tuple'))
        st.env['$globals'] = mk('tuple', *(st.env['$globals'].args + tuple(strc(x) for x in n.names)))
        return True

    def s_Nonlocal(self, n, st, out):
        self.note('nonlocal')
        return True

    def s_Import(self, n, st, out):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            q = a.name if a.asname else a.name.split('.')[0]
            self.event(st, 'import', name=a.name)
            st.env[nm] = mk('mod', q) if self.prog.is_internal(q) else mk('ext', npmodel.canon_name(q))
        return True

    def s_ImportFrom(self, n, st, out):
        mod = self.frames[-1][0].module
        tgt = self.prog.abs_module(mod, n.module, n.level)
        self.event(st, 'import', name=tgt)
        for a in n.names:
            if self.prog.is_internal(tgt):
                r = self.prog.lookup(tgt, a.name)
                if r[0] == 'missing' and tgt + '.' + a.name in self.prog.modules:
                    r = ('mod', tgt + '.' + a.name)
                v = self.target_value(st, r, a.name)
            else:
                q = npmodel.canon_name(tgt + '.' + a.name)
                cv = npmodel.const_ext(q)
                v = cv if cv is not None else mk('ext', q)
            st.env[a.asname or a.name] = v if v is not None else mk('opaque', 'import')
        return True

    def s_FunctionDef(self, n, st, out):
        st.env[n.name] = self.closure(n, st)
        return True

    def s_ClassDef(self, n, st, out):
        self.note('local class')
        return True

    def s_Return(self, n, st, out):
        v = self.eval(n.value, st) if n.value else NONE
        if st.pc is FALSE:
            return False
        out.append(('return', st.copy(), v))
        return False

    def s_Raise(self, n, st, out):
        exc = 'Exception'
        if n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            v = self.eval(e, st) if isinstance(e, (ast.Name, ast.Attribute)) else None
            if v is not None and v.op in ('ext', 'cls'):
                exc = v.args[0].split('.')[-1]
        self.event(st, 'raise', exc=exc)
        out.append(('raise', st.copy(), strc(exc)))
        return False

    def s_Assert(self, n, st, out):
        c = self.cond(n.test, st)
        s2 = st.copy()
        s2.pc = band(st.pc, bnot(c))
        if s2.pc is not FALSE:
            self.event(s2, 'raise', exc='AssertionError')
            out.append(('raise', s2, strc('AssertionError')))
        st.pc = band(st.pc, c)
        if self.assume_asserts:
            pass
        return st.pc is not FALSE

    assume_asserts = True

    def s_Assign(self, n, st, out):
        v = self.eval(n.value, st)
        for t in n.targets:
            self.assign(t, v, st, n)
        return True

    def s_AnnAssign(self, n, st, out):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st, n)
        return True

    def assign(self, t, v, st, n):
        if isinstance(t, ast.Name):
            if v.op == 'view':
                pass
            gl = st.env.get('$globals')
            if gl is not None and strc(t.id) in gl.args:
                self.event(st, 'globalwrite', name=t.id)
            st.env[t.id] = self.box(st, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, n)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, n)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            bv = self.box(st, v, t)
            if bv.op == 'view':
                bv = bv
            self.setattr(st, base, t.attr, bv, n)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            i = self.eval_index(t.slice, st)
            self.setitem(st, base, i, v, n)

    def setattr(self, st, base, name, v, n):
        def go(s, b):
            if b.op == 'ref' and self.cell(s, b).kind == 'inst':
                c = self.cell(s, b)
                self.setfield(s, b, name, v)
            elif b.op == 'cls':
                self.event(s, 'classwrite', cls=b.args[0], field=name, val=v)
            elif b.op in ('ref', 'view'):
                r = b.args[0] if b.op == 'view' else b
                fv = self.fz(s, v)
                if r.op == 'ref':
                    self.mutate(s, ref(r.args[0], r.args[1], r.args[2]), lambda c: tm.mkl('setfld', c, name, fv), 'setattr')
            elif b.op in ('mod', 'ext'):
                self.event(s, 'modwrite', target=b, field=name)
            else:
                self.event(s, 'attrwrite', target=self.fz(s, b), field=name, val=self.fz(s, v))
            return NONE
        self.dispatch(st, base, go)

    def setitem(self, st, base, i, v, n):
        def go(s, b):
            if b.op == 'ref' and self.cell(s, b).kind == 'inst':
                c = self.cell(s, b)
                f = self.prog.find_method(c.cls, '__setitem__')
                if f:
                    self.call_func(s, f, [b, i, v], {}, n)
                return NONE
            if v.op == 'view' and b.op in ('ref', 'view'):
                r = b.args[0] if b.op == 'view' else b
                if r.op == 'ref' and v.args[0] is ref(r.args[0], r.args[1], r.args[2] + (('idx', i),)):
                    c, tok = s.heap.get(r.args[0]), self.viewtok.get(v.dig)
                    if c is not None and tok and c.tok[:len(tok)] == tok:
                        return NONE         # the element is put back where it already is
            k = self.kind_of(s, b)
            val = v
            if k not in ('list', 'dict'):
                val = self.fz(s, v)
            else:
                val = self.box(s, v, n, 'item')
            r = b.args[0] if b.op == 'view' else b
            if r.op == 'ref' and r.args[0] in s.heap and s.heap[r.args[0]].dtype is not None:
                val = npmodel.cast(val, s.heap[r.args[0]].dtype)
            self.event(s, 'setitem', base=b, idx=i, val=self.fz(s, v))
            self.mutate(s, b, lambda c: self.pure_store(c, i, val), 'setitem')
            return NONE
        self.dispatch(st, base, go)

    def unpack(self, t, v, st, n):
        x = self.rd(st, v)
        m = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        for i, e in enumerate(t.elts):
            if star and i == star[0]:
                after = m - i - 1
                val = subseq(x, num(i), num(-after) if after else NONE)
                val = self.newlist(st, e, val, tag='unpack')
            else:
                j = num(i) if not star or i < star[0] else num(i - m)
                if x.op in ('tuple', 'list', 'ite'):
                    val = lift(lambda y: index(y, j), x)
                else:
                    val = self.subscript(st, v, j, e)
            self.assign(e, val, st, n)

    def s_AugAssign(self, n, st, out):
        t = n.target
        load = ast.copy_location(_as_load(t), t)
        if isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            i = self.eval_index(t.slice, st)
            cur = self.subscript(st, base, i, t)
            v = self.eval(n.value, st)
            k = self.kind_of(st, cur)
            if k in ('list',) and isinstance(n.op, ast.Add):
                vv = self.as_seq(st, self.rd(st, v))
                self.mutate(st, cur, lambda c: cat(c, vv), 'iadd')
                return True
            r = self.binop(st, n.op, cur, v, n)
            self.setitem(st, base, i, r, n)
            return True
        cur = self.eval(load, st)
        v = self.eval(n.value, st)
        gl = st.env.get('$globals')
        if isinstance(t, ast.Name) and gl is not None and strc(t.id) in gl.args:
            self.event(st, 'globalwrite', name=t.id)
        inplace = False
        for lf in tm.leaves(cur):
            if lf.op in ('ref', 'view') and not self._numlike(st, lf):
                inplace = True
        if inplace:
            k = self.kind_of(st, cur)
            if k in ('list', 'deque') and isinstance(n.op, ast.Add):
                vv = self.as_seq(st, self.rd(st, v))
                self.mutate(st, cur, lambda c: cat(c, vv), 'iadd')
                return True
            if k == 'list' and isinstance(n.op, ast.Mult):
                kk = self.fz(st, v)
                self.mutate(st, cur, lambda c: tm.mkl('rep', c, kk), 'imul')
                return True
            if k == 'inst':
                return True
            fv = self.fz(st, v)
            old = self.fz(st, cur) if cur.op == 'view' else None

            def go(s, b):
                if b.op in ('ref', 'view'):
                    r = b.args[0] if b.op == 'view' else b
                    d = s.heap[r.args[0]].dtype if r.op == 'ref' and r.args[0] in s.heap else None
                    self.mutate(s, b, lambda c: npmodel.cast(self.arith(n.op, self.fz(s, c), fv), d), 'iop')
                    return b
                return self.arith(n.op, self.fz(s, b), fv)
            r = self.dispatch(st, cur, go)
            if any(lf.op not in ('ref', 'view') for lf in tm.leaves(cur)):
                self.assign(t, r, st, n)
            if isinstance(t, ast.Name) and cur.op == 'view':
                st.env[t.id] = self.box(st, self.arith(n.op, old, fv), n)
            return True
        r = self.binop(st, n.op, cur, v, n)
        self.assign(t, r, st, n)
        return True

    def _numlike(self, st, r):
        """a computed value with no evidence of being an array: rebinding semantics"""
        if r.op != 'ref' or r.args[2]:
            return False
        c = st.heap.get(r.args[0])
        if c is None or c.kind != 'arr' or c.origin != 'fresh' or c.name:
            return False
        t = c.content
        if t is None or t.op in ('arr', 'list', 'map', 'cat', 'store', 'stores', 'sstore', 'fill', 'alloc'):
            return False
        if t.op == 'poly':
            return not any(a.op in ('arr', 'alloc', 'store', 'stores', 'map') for m, _ in t.args[0] for a, e in m)
        return t.op in ('call', 'rng', 'mcall', 'idx', 'sym', 'abs', 'fold', 'mul', 'pow', 'ite') and not (t.op == 'rng')

    def s_Delete(self, n, st, out):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                i = self.eval_index(t.slice, st)
                k = self.kind_of(st, base)

                def nc(c):
                    if i.op == 'slice':
                        return self.pure_store(c, i, mk('list'))
                    if k == 'dict':
                        return tm.mkl('ddel', self.fz(st, c), i)
                    return npmodel.delete_at(c, i)
                self.mutate(st, base, nc, 'del')
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value, st)
                if base.op == 'ref' and self.cell(st, base).kind == 'inst':
                    self.setfield(st, base, t.attr, UNSET)
        return True

    def s_If(self, n, st, out):
        c = self.cond(n.test, st)
        if c is UNDEF:
            c = mk('truthy', mk('opaque', 'undefcond', ast.dump(n.test)[:80]))
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = band(st.pc, c), band(st.pc, bnot(c))
        f1 = self.exec_block(n.body, s1, out) if s1.pc is not FALSE else False
        f2 = self.exec_block(n.orelse, s2, out) if s2.pc is not FALSE else False
        if f1 and f2:
            st.become(self.merge(c, s1, s2))
            return True
        if f1:
            st.become(s1)
            return True
        if f2:
            st.become(s2)
            return True
        return False

    def s_Match(self, n, st, out):
        self.note('match statement')
        self.event(st, 'unsupported', what='match')
        return True

    def s_With(self, n, st, out):
        for it in n.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, n)
        return self.exec_block(n.body, st, out)

    def s_Try(self, n, st, out):
        # idiom: dictionary lookup with KeyError fallback
        cond = None
        pre = st.copy()
        if len(n.handlers) == 1:
            h = n.handlers[0]
            hn = ast.unparse(h.type) if h.type is not None else ''
            if hn in ('KeyError', 'IndexError') and n.body:
                sub_ = None
                for x in ast.walk(n.body[0]):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
                        sub_ = x
                        break
                if sub_ is not None and len(n.body) == 1:
                    tmp = st.copy()
                    self.quiet += 1
                    try:
                        b = self.fz(tmp, self.eval(sub_.value, tmp))
                        i = self.eval_index(sub_.slice, tmp)
                    finally:
                        self.quiet -= 1
                    cond = asbool(lift(lambda p, q: npmodel.contains_(p, q), i, b))
        s1 = st.copy()
        if cond is None:
            cond = bnot(mk('exc', self.ctx_free(n), tuple()))
        s1.pc = band(st.pc, cond)
        mark = len(out)
        f1 = self.exec_block(n.body, s1, out)
        raised = [o for o in out[mark:] if o[0] == 'raise']
        if f1 and n.orelse:
            f1 = self.exec_block(n.orelse, s1, out)
        res = s1 if f1 else None
        for h in n.handlers:
            s2 = pre.copy()
            s2.pc = band(pre.pc, bnot(cond))
            if s2.pc is FALSE:
                continue
            if h.name:
                s2.env[h.name] = mk('excv', h.name)
            f2 = self.exec_block(h.body, s2, out)
            if f2:
                res = self.merge(cond, res, s2) if res is not None else s2
        if res is None:
            if n.finalbody:
                self.exec_block(n.finalbody, st, out)
            return False
        st.become(res)
        if n.finalbody:
            return self.exec_block(n.finalbody, st, out)
        return True

    def ctx_free(self, n):
        # an identity for 'the try body raises': handler types + normalised body
        return ' '.join(ast.unparse(h.type) if h.type else '' for h in n.handlers)

    s_TryStar = s_Try

    def s_Break(self, n, st, out):
        out.append(('break', st.copy(), NONE))
        return False

    def s_Continue(self, n, st, out):
        out.append(('continue', st.copy(), NONE))
        return False

    # ------------------------------------------------------------ sequences
    def as_seq(self, st, v):
        """content term of an iterable value"""
        def f(x):
            if x.op == 'tuple':
                return mk('list', *x.args)
            if x.op == 'arr':
                return x.args[0]
            return x
        return lift(f, v)

    def iter_desc(self, st, it):
        """iterable value -> (n, elem(k) -> value, baseref or None)"""
        base = it
        if it.op in ('ref', 'view'):
            kind = self.kind_of(st, it)
            x = self.rd(st, it)
            if kind == 'inst':
                return None
            if kind == 'dict':
                x = tm.mkl('keys', self.fz(st, x))
        else:
            x = it
            kind = self.kind_of(st, it)
        x = self.as_seq(st, x)
        if x.op == 'iter':
            return x
        n = length(self.fz(st, x))

        def elem(k):
            v = npmodel.index(x, k) if x.op != 'ite' else lift(lambda y: npmodel.index(y, k), x)
            if base.op == 'ref' and v.op not in ('ref', 'tuple', 'num', 'str', 'ite', 'cls', 'fn') and kind in ('arr', 'any', 'list', 'deque') and not (v.op == 'sym'):
                return self.mkview(st, ref(base.args[0], base.args[1], base.args[2] + (('idx', k),)), v)
            return v
        return n, elem, x

    # ------------------------------------------------------------ loops
    def s_For(self, n, st, out):
        it = self.eval(n.iter, st)
        if it.op == 'ite':
            # conditional iterable: analyse both arms
            c = it.args[0]
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = band(st.pc, c), band(st.pc, bnot(c))
            f1 = self._for(n, s1, out, it.args[1]) if s1.pc is not FALSE else False
            f2 = self._for(n, s2, out, it.args[2]) if s2.pc is not FALSE else False
            if f1 and f2:
                st.become(self.merge(c, s1, s2))
            elif f1:
                st.become(s1)
            elif f2:
                st.become(s2)
            return f1 or f2
        return self._for(n, st, out, it)

    def _for(self, n, st, out, it):
        if it.op == 'undef':
            return True
        d = self.iter_desc(st, it)
        if d is None:
            self.event(st, 'unsupported', what='iteration over object')
            return True
        cnt, elem, x = d
        if any(isinstance(y, (ast.Yield, ast.Return, ast.Break)) or isinstance(y, ast.Attribute) and y.attr in ('append', 'insert', 'extend')
               for b in n.body for y in ast.walk(b)):
            self.setorder(st, x)
        if x.op == 'ite' and x.op != 'list':
            c = x.args[0]
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = band(st.pc, c), band(st.pc, bnot(c))
            f1 = self._for(n, s1, out, self._arm(it, x.args[1])) if s1.pc is not FALSE else False
            f2 = self._for(n, s2, out, self._arm(it, x.args[2])) if s2.pc is not FALSE else False
            if f1 and f2:
                st.become(self.merge(c, s1, s2))
            elif f1:
                st.become(s1)
            elif f2:
                st.become(s2)
            return f1 or f2
        if x.op == 'list' and len(x.args) <= 4:
            return self._unroll(n, st, out, x.args)
        if cnt is not None and cnt.op == 'num' and cnt.args[0].denominator == 1 and 0 <= cnt.args[0] <= 2 \
                and not any(isinstance(y, ast.Break) for y in ast.walk(n)):
            return self._unroll(n, st, out, [elem(tm.num(j)) for j in range(int(cnt.args[0]))])
        k = fresh('k')

        def pre(s):
            self.assign(n.target, elem(k), s, n)
            return TRUE
        ok = self.loop(n, st, out, k, cnt, pre, n.body)
        if ok and n.orelse:
            return self.exec_block(n.orelse, st, out)
        return ok

    def _arm(self, it, x):
        return x

    def _unroll(self, n, st, out, items):
        for j, e in enumerate(items):
            saved = self.ctx
            self.ctx = '%s#%d' % (self.ctx, j)
            self.recpath.append(tm.num(j))
            try:
                self.assign(n.target, e, st, n)
                sub_out = []
                f = self.exec_block(n.body, st, sub_out)
                brk = False
                conts = []
                for o in sub_out:
                    if o[0] == 'continue':
                        conts.append(o[1])
                    elif o[0] == 'break':
                        brk = True
                        conts.append(o[1])
                    else:
                        out.append(o)
                if brk:
                    self.note('break in unrolled loop')
                    self.event(st, 'unsupported', what='break in literal loop')
                for s in conts:
                    if f:
                        st.become(self.merge(s.pc, s, st))
                    else:
                        st.become(s)
                        f = True
                if not f:
                    return False
            finally:
                self.ctx = saved
                self.recpath.pop()
        if n.orelse:
            return self.exec_block(n.orelse, st, out)
        return True

    def s_While(self, n, st, out):
        # while True: ... / while cond: ...
        r = self._while_trim(n, st)
        if r:
            return True
        r = self._while_walk(n, st, out)
        if r is not None:
            return r
        k = fresh('k')

        def pre(s):
            c = self.cond(n.test, s)
            return c
        ok = self.loop(n, st, out, k, None, pre, n.body)
        if ok and n.orelse:
            return self.exec_block(n.orelse, st, out)
        return ok

    def _while_walk(self, n, st, out):
        """a walk over known objects (a node, a worklist of nodes), executed step by step"""
        t = n.test
        names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
        if isinstance(t, ast.Constant):
            names = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

        def walked(v, d=0):
            for x in tm.leaves(v):
                if x.op == 'ref':
                    kd = self.kind_of(st, x)
                    if kd == 'inst':
                        return True
                    if d == 0 and kd in ('list', 'deque') and x.args[0] in st.heap:
                        cn = st.heap[x.args[0]].content
                        if cn is not None and any(walked(y, 1) for z in tm.leaves(cn) if z.op in ('list', 'cat') for y in z.args if isinstance(y, T)):
                            return True
                elif x.op in ('tuple', 'list') and any(walked(y, 1) for y in x.args if isinstance(y, T)):
                    return True
            return False
        if not any(walked(st.env[x]) for x in names if isinstance(st.env.get(x), T)):
            return None
        ev, wl = len(self.events), len(self.wlog)
        saved = self.ctx, list(self.recpath)
        s, o, brks = st.copy(), [], []
        names |= {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        budget = [400, time.process_time() + 20, names]
        try:
            f = self._walk_step(n, s, o, brks, 0, 0, budget)
        except _Endless:
            del self.events[ev:]
            del self.wlog[wl:]
            self.ctx = saved[0]
            self.recpath[:] = saved[1]
            self.event(st, 'unsupported', what='walk over objects')
            return None
        if f and n.orelse:
            f = self.exec_block(n.orelse, s, o)
        for b in brks:
            if f:
                s.become(self.merge(b.pc, b, s))
            else:
                s.become(b)
                f = True
        out.extend(o)
        st.become(s)
        return f

    def _tangled(self, s, names):
        for x in names:
            v = s.env.get(x)
            if isinstance(v, T):
                if v.op == 'ref' and v.args[0] in s.heap and s.heap[v.args[0]].content is not None:
                    v = s.heap[v.args[0]].content
                if tm.ite_nodes(v) > 16 or v.op in ('list', 'tuple', 'cat') and sum(tm.ite_nodes(y) for y in v.args if isinstance(y, T)) > 16:
                    return True
        return False

    def _walk_step(self, n, s, out, brks, d, open_, budget):
        c = self.cond(n.test, s)
        if c is FALSE:
            return True
        budget[0] -= 1
        if c is not TRUE:
            open_ += 1
        if c is UNDEF or open_ > 6 or budget[0] < 0 or time.process_time() > budget[1] or self._tangled(s, budget[2]):
            raise _Endless()
        s1, s2 = s.copy(), s.copy()
        s1.pc, s2.pc = band(s.pc, c), band(s.pc, bnot(c))
        f1 = False
        if s1.pc is not FALSE:
            saved = self.ctx
            self.ctx = '%s#%d' % (self.ctx, d)
            self.recpath.append(tm.num(d))
            try:
                o = []
                f1 = self.exec_block(n.body, s1, o)
                for x in o:
                    if x[0] == 'continue':
                        if f1:
                            s1.become(self.merge(x[1].pc, x[1], s1))
                        else:
                            s1.become(x[1])
                            f1 = True
                    elif x[0] == 'break':
                        brks.append(x[1])
                    else:
                        out.append(x)
            finally:
                self.ctx = saved
                self.recpath.pop()
            if f1:
                f1 = self._walk_step(n, s1, out, brks, d + 1, open_, budget)
        f2 = s2.pc is not FALSE
        if f1 and f2:
            s.become(self.merge(c, s1, s2))
        elif f1:
            s.become(s1)
        elif f2:
            s.become(s2)
        return f1 or f2

    def _while_trim(self, n, st):
        """while len(s) > m: s.pop(0) / del s[0] / s = s[1:]  ->  s = last m."""
        if len(n.body) != 1 or n.orelse:
            return False
        mark = len(self.events)
        s = st.copy()
        wl = len(self.wlog)
        c = self.cond(n.test, s)
        s1 = s.copy()
        o = []
        self.quiet += 1
        try:
            if not self.exec_block(n.body, s1, o) or o:
                return False
        finally:
            self.quiet -= 1
        # exactly one cell changed: content -> drop(content, 1)
        changed = [oid for oid in s1.heap if oid in s.heap and s1.heap[oid] is not s.heap[oid]]
        rebound = [nm for nm in s1.env if s1.env[nm] is not s.env.get(nm)]
        cells = []
        for oid in changed:
            a, b = s.heap[oid], s1.heap[oid]
            if a.kind == 'inst':
                for f in b.fields:
                    if b.fields[f] is not a.fields.get(f):
                        cells.append(('f', oid, f, a.fields.get(f), b.fields[f]))
            else:
                cells.append(('c', oid, None, a.content, b.content))
        for nm in rebound:
            if s.env.get(nm) is None:
                return False
            cells.append(('n', None, nm, s.env[nm], s1.env[nm]))
        if len(cells) != 1:
            return False
        kind, oid, nm, a, b = cells[0]
        old, new = self.rd(s, a), self.rd(s1, b)
        if not (new is drop(old, ONE)):
            return False
        L = length(self.fz(s, old))
        lim = None
        cc = c
        p = tm.as_ge0(cc)
        if p is not None:
            # len - m - 1 >= 0
            d = sub(L, p)
            lim = sub(d, ONE)
        if lim is None or contains(lim, L) or (old.op == 'sym' and contains(lim, old)):
            return False
        res = lastn(old, lim)
        self.event(st, 'trim', cond=c)
        if kind == 'c':
            st.heap[oid] = st.heap[oid].rep(content=res)
            self.event(st, 'mutate', oid=oid, origin=st.heap[oid].origin, how='trim', name=st.heap[oid].name, ref=ref(oid))
            self.wlog.append((oid, ()))
        elif kind == 'f':
            r = self.newlist(st, n, res, tag='trim')
            c0 = st.heap[oid]
            f = dict(c0.fields)
            f[nm] = r
            st.heap[oid] = c0.rep(fields=f)
            self.wlog.append((oid, ()))
            self.event(st, 'setfield', oid=oid, field=nm, origin=c0.origin, name=c0.name, val=r)
        else:
            st.env[nm] = self.newlist(st, n, res, tag='trim')
        return True

    def loop(self, n, st, out, k, cnt, pre, body):
        """Generic loop summary.  cnt None => while loop with condition from pre."""
        carried = {}            # key -> phi
        retok = set()           # (cell, depth) whose slots are rebound in the body
        base = st.copy()
        ev_mark = len(self.events)
        final = None
        is_while = cnt is None
        for attempt in range(8):
            del self.events[ev_mark:]
            s = base.copy()
            s.pc = TRUE
            # install phis
            for key, phi in carried.items():
                self._install(s, key, phi, base)
            self._retoken(s, retok)
            entry = s.copy()
            self.loops.append((k, cnt if cnt is not None else UNDEF))
            self.gpc.append(base.pc)
            wmark = len(self.wlog)
            louts = []
            try:
                c = pre(s)
                entry_c = s.copy()
                if is_while:
                    s.pc = c
                ft = self.exec_block(body, s, louts) if s.pc is not FALSE else False
            finally:
                self.gpc.pop()
                self.loops.pop()
            wl = self.wlog[wmark:]
            conts = [o[1] for o in louts if o[0] == 'continue']
            brks = [o for o in louts if o[0] == 'break']
            rets = [o for o in louts if o[0] == 'return']
            end = s if ft else None
            for cs in conts:
                end = self.merge(cs.pc, cs, end) if end is not None else cs
            res = end if end is not None else entry
            # states that reach the next iteration or a break
            allend = [res] + [b[1] for b in brks]
            new = {}
            rebound = set()
            for e in allend:
                for key in self._changes(entry, e, k, wl):
                    if key not in carried:
                        new[key] = True
                for o, c0 in entry.heap.items():
                    c1 = e.heap.get(o)
                    if c1 is not None and c1.tok != c0.tok:
                        rebound |= {(o, d) for d in range(3) if c1.tok[d] != c0.tok[d]}
            if not new and rebound <= retok:
                final = (entry, c, end, brks, rets, wl)
                break
            retok |= rebound
            for key in new:
                carried[key] = self._phi(base, key)
        else:
            self.note('loop did not stabilise')
            self.event(st, 'unsupported', what='loop fixpoint')
            final = (entry, c, end, brks, rets, wl)
        entry, c, end, brks, rets, wl = final
        items = {}
        for key, phi in carried.items():
            init = self._value(base, key)
            if end is not None:
                b = self._value(end, key)
            else:
                b = phi
            for bo in brks:
                vb = self._value(bo[1], key)
                b = ite(bo[1].pc, vb, b)
            items[key] = [phi, init, b]
        brk_c = FALSE
        for bo in brks:
            brk_c = bor(brk_c, bo[1].pc)
        ret_c = FALSE
        for ro in rets:
            ret_c = bor(ret_c, ro[1].pc)
        # a while loop with a recognisable counter becomes a counted loop
        if is_while:
            r = self._while_count(items, c, k)
            if r is not None:
                cnt, items = r
                # re-express: counter closed form handled in close()
            else:
                cnt = None
        fams = self._pointwise(base, items, [c if is_while else FALSE, brk_c, ret_c])
        vals, induct = self._close(items, k, cnt, c if is_while else None, brk_c, ret_c)
        for key, (phi, phi2, ks) in fams.items():
            vals[key] = tm.famv(ks, vals[key])
            if phi2 in induct:
                induct[phi] = tm.famv(ks, induct.pop(phi2))
        # elementwise cells (summary cells touched at index k only)
        if end is not None:
            self._adopt_elements(st, base, end, k, cnt, wl, carried, brk_c, ret_c, induct)
        for key, v in vals.items():
            self._assign_key(st, key, v, n, base)
        self._retoken(st, retok)
        # new cells allocated in the body stay reachable
        for e in ([end] if end is not None else []) + [b[1] for b in brks]:
            for oid, cell in e.heap.items():
                if oid not in st.heap:
                    cc = cell
                    if induct and cell.content is not None:
                        cc = cell.rep(content=subst(cell.content, induct))
                    st.heap[oid] = cc
        # fix events recorded in the final pass: substitute induction variables and phis
        if induct:
            for ev in self.events[ev_mark:]:
                ev.guard = subst(ev.guard, induct)
                ev.data = {a: (subst(b, induct) if isinstance(b, T) else
                               tuple(subst(x, induct) if isinstance(x, T) else x for x in b) if isinstance(b, tuple) else b)
                           for a, b in ev.data.items()}
                ev.loops = tuple((kk, (cnt if kk is k and cnt is not None else nn)) for kk, nn in ev.loops)
        if is_while and cnt is not None:
            for ev in self.events[ev_mark:]:
                ev.loops = tuple((kk, (cnt if kk is k else nn)) for kk, nn in ev.loops)
        # names bound in the body only
        if end is not None:
            for nm, v in end.env.items():
                if nm not in base.env and not nm.startswith('$'):
                    vv = self.fz(end, v) if v.op != 'ref' or self.kind_of(end, v) != 'inst' else v
                    if cnt is not None and not _hasref(vv) and not any(contains(vv, it[0]) for it in items.values()):
                        st.env[nm] = subst(subst(vv, induct), {k: sub(cnt, ONE)})
                    elif v.op == 'ref':
                        st.env[nm] = v
                    else:
                        st.env[nm] = mk('opaque', 'loopvar', nm)
        if ret_c is not FALSE:
            rc = subst(ret_c, induct)
            rv = UNDEF
            rheap = None
            for ro in reversed(rets):
                v = self.fz(ro[1], ro[2]) if not (ro[2].op == 'ref' and self.kind_of(ro[1], ro[2]) == 'inst') else ro[2]
                rv = ite(ro[1].pc, v, rv)
            rv = subst(rv, induct)
            if cnt is not None and not any(contains(rc, it[0]) or contains(rv, it[0]) for it in items.values()):
                anyc = self._any(cnt, k, rc)
                first = rv if not contains(rv, k) else bind('first', cnt, k, (rc, rv))
                s_r = st.copy()
                s_r.pc = band(st.pc, anyc)
                out.append(('return', s_r, first))
                st.pc = band(st.pc, bnot(anyc))
            else:
                self.note('return inside stateful loop')
                self.event(st, 'unsupported', what='return in stateful loop')
                u = mk('truthy', mk('opaque', 'loopreturn', str(getattr(n, 'lineno', 0))))
                s_r = st.copy()
                s_r.pc = band(st.pc, u)
                out.append(('return', s_r, rv))
                st.pc = band(st.pc, bnot(u))
        for ro in [o for o in louts if o[0] == 'raise']:
            out.append(ro)
        if end is None and not brks and rets and cnt is not None:
            pass
        return st.pc is not FALSE

    def _pointwise(self, base, items, others):
        """families each of whose elements evolves on its own are closed elementwise"""
        fams = {}
        for key in list(items):
            if key[0] == 'n' or not base.heap[key[1]].ks:
                continue
            ks = base.heap[key[1]].ks
            phi, init, b = items[key]
            phi2 = fresh('phi', phi.args[1])
            own = tm.el(phi, ks)
            body = subst(tm.el(b, ks), {own: phi2})
            if contains(body, phi) or any(contains(items[o][2], phi) for o in items if o != key) or any(contains(t, phi) for t in others):
                continue
            items[key] = [phi2, tm.el(init, ks), body]
            fams[key] = (phi, phi2, ks)
        return fams

    def _retoken(self, s, cells):
        for o, d in cells:
            c = s.heap.get(o)
            if c is not None:
                self.ntok += 1
                s.heap[o] = c.rep(tok=tuple(self.ntok if i == d else t for i, t in enumerate(c.tok)))

    def _any(self, cnt, k, c):
        if c is TRUE:
            return asbool(cmp_gt(cnt, ZERO))
        if not contains(c, k):
            return band(asbool(cmp_gt(cnt, ZERO)), c)
        return bind('any', cnt, k, (c,))

    # --- carried items
    def _changes(self, a, b, k, wl):
        """keys of things that differ between states a (entry) and b (end)."""
        keys = []
        for nm, v in a.env.items():
            w = b.env.get(nm)
            if w is None or w is v:
                continue
            if nm == '$globals':
                continue
            x, y = self._nameval(a, v), self._nameval(b, w)
            if x is not y:
                keys.append(('n', nm))
            elif v.op == 'ref' and w.op == 'ref' and v is not w:
                pass
        for oid, c in a.heap.items():
            d = b.heap.get(oid)
            if d is c or d is None:
                continue
            if oid.startswith('phi:'):
                continue
            if c.ks and self._elementwise(oid, k, wl):
                continue
            if c.kind == 'inst':
                for f in d.fields:
                    x, y = c.fields.get(f, UNSET), d.fields[f]
                    if x is not y:
                        vx = self._nameval(a, x)
                        vy = self._nameval(b, y)
                        if vx is not vy:
                            keys.append(('f', oid, f))
            elif d.content is not c.content:
                keys.append(('c', oid))
        return keys

    def _elementwise(self, oid, k, wl):
        ats = [at for o, at in wl if o == oid]
        return bool(ats) and all(k in at for at in ats)

    def _nameval(self, st, v):
        if v.op == 'ref' and self.kind_of(st, v) in ('inst',):
            return v
        return self.rd(st, v)

    def _phi(self, base, key):
        v = self._value(base, key)
        if key[0] != 'n':
            v = tm.el(v, base.heap[key[1]].ks)
        kind = 'any'
        if v.op == 'num' or (v.op == 'sym' and v.args[1] in ('int', 'num')) or tm.is_int(v):
            kind = 'int' if tm.is_int(v) else 'num'
            if v.op == 'num' and v.args[0].denominator == 1:
                kind = 'int?'
        elif v.op in ('list', 'cat', 'map', 'drop', 'take') or (v.op == 'sym' and v.args[1] == 'list'):
            kind = 'list'
        elif v.op == 'sym':
            kind = v.args[1]
        if kind == 'int?':
            kind = 'num'
        return fresh('phi', kind)

    def _value(self, st, key):
        """content-level value of a carried item"""
        if key[0] == 'n':
            v = st.env.get(key[1], UNDEF)
            return self._nameval(st, v)
        c = st.heap[key[1]]
        if key[0] == 'f':
            return tm.famv(c.ks, self._nameval(st, c.fields.get(key[2], UNSET)))
        return tm.famv(c.ks, c.content)

    def _install(self, s, key, phi, base):
        if key[0] == 'n':
            v = base.env[key[1]]
            if v.op == 'ref' and self.kind_of(base, v) in ('list', 'deque', 'dict', 'set', 'arr', 'any', 'opaque'):
                c = base.heap[v.args[0]]
                oid = 'phi:%s' % phi.args[0]
                s.heap[oid] = c.rep(content=phi, ks=(), kind=c.kind)
                s.env[key[1]] = ref(oid)
            else:
                s.env[key[1]] = phi
            return
        c = s.heap[key[1]]
        if key[0] == 'f':
            f = dict(c.fields)
            v = base.heap[key[1]].fields.get(key[2], UNSET)
            if v.op == 'ref' and self.kind_of(base, v) in ('list', 'deque', 'dict', 'set', 'arr', 'any', 'opaque'):
                cc = base.heap[v.args[0]]
                oid = 'phi:%s' % phi.args[0]
                s.heap[oid] = cc.rep(content=tm.el(phi, c.ks), ks=c.ks)
                f[key[2]] = ref(oid, c.ks)
            else:
                f[key[2]] = tm.el(phi, c.ks)
            s.heap[key[1]] = c.rep(fields=f)
        else:
            s.heap[key[1]] = c.rep(content=tm.el(phi, c.ks))

    def _assign_key(self, st, key, v, n, base):
        if key[0] == 'n':
            old = base.env[key[1]]
            kind = self.kind_of(base, old)
            if old.op == 'ref' and kind in ('list', 'deque', 'dict', 'set'):
                st.env[key[1]] = self.newlist(st, n, v, kind=kind, tag='loop:' + key[1])
            elif v.op in ('ref',):
                st.env[key[1]] = v
            else:
                st.env[key[1]] = self.box(st, v, n, 'loop:' + key[1]) if not _hasref(v) and not _plain(old) else v
            return
        c = st.heap[key[1]]
        v = tm.el(v, c.ks)
        if key[0] == 'f':
            f = dict(c.fields)
            old = base.heap[key[1]].fields.get(key[2], UNSET)
            kind = self.kind_of(base, old)
            if old.op == 'ref' and kind in ('list', 'deque', 'dict', 'set'):
                f[key[2]] = self.newlist(st, n, v, kind=kind, tag='loopf:' + key[2])
            else:
                f[key[2]] = self.box(st, v, n, 'loopf:' + key[2]) if not _hasref(v) and not _plain(old) else v
            st.heap[key[1]] = c.rep(fields=f)
        else:
            st.heap[key[1]] = c.rep(content=v)
        self.wlog.append((key[1], ()))

    def _adopt_elements(self, st, base, end, k, cnt, wl, carried, brk_c, ret_c, induct):
        for oid, d in end.heap.items():
            c = base.heap.get(oid)
            if c is None or c is d or not c.ks or not self._elementwise(oid, k, wl):
                continue
            pos = None
            for o, at in wl:
                if o == oid:
                    for i, a in enumerate(at):
                        if a is k:
                            pos = i
            m = {k: c.ks[pos]} if pos is not None else {}
            kp = c.ks[pos] if pos is not None else k
            full = cnt is not None and brk_c is FALSE and ret_c is FALSE

            def conv(t, old):
                t2 = subst(subst(t, induct), m)
                if t2 is old:
                    return t2
                tag = cnt if full else mk('opaque', 'partial')
                return mk('each', tag, kp, old, t2)
            fields = d.fields
            if fields is not None:
                fields = {}
                for f, v in d.fields.items():
                    old = c.fields.get(f, UNSET)
                    fields[f] = v if v is old else conv(v, old)
                st.heap[oid] = c.rep(fields=fields)
            else:
                st.heap[oid] = c.rep(content=conv(d.content, c.content))
            self.event(st, 'eachwrite', oid=oid, n=cnt if full else mk('opaque', 'partial'), name=c.name)

    def _while_count(self, items, c, k):
        """counter i: init a, body i+1, cond i < b  ->  count = b - a."""
        p = tm.as_ge0(c)
        if p is None:
            return None
        for key, (phi, init, b) in items.items():
            step = sub(b, phi)
            if step.op != 'num' or abs(step.args[0]) != 1:
                continue
            if not contains(p, phi):
                continue
            coef = None
            for m, cc in tm.to_poly(p).items():
                if len(m) == 1 and m[0][0] is phi and m[0][1] == 1:
                    coef = cc
            if coef is None or coef * step.args[0] != -1:
                continue
            rest = add(p, neg(mul(num(coef), phi)))
            if any(contains(rest, it[0]) for it in items.values()):
                continue
            # iterations while p(init + step*j) >= 0: count = p(init) + 1
            cnt = add(subst(p, {phi: init}), ONE)
            return cnt, items
        return None

    def _close(self, items, k, cnt, wcond, brk_c, ret_c):
        vals = {}
        induct = {}
        items = {a: list(b) for a, b in items.items()}
        plain = brk_c is FALSE and ret_c is FALSE
        # drop unchanged
        changed = True
        while changed:
            changed = False
            for key in list(items):
                phi, init, b = items[key]
                if b is phi:
                    induct[phi] = init
                    vals[key] = init
                    del items[key]
                    for o in items.values():
                        o[2] = subst(o[2], {phi: init})
                    brk_c = subst(brk_c, {phi: init})
                    changed = True
        if cnt is not None and plain:
            # induction variables
            changed = True
            while changed:
                changed = False
                for key in list(items):
                    phi, init, b = items[key]
                    if phi.args[1] == 'list' or b.op == 'ite' or init.op in ('list', 'undef', 'unset', 'none', 'c'):
                        continue
                    if b.op not in ('poly', 'num', 'sym'):
                        continue
                    step = sub(b, phi)
                    if contains(step, k) or any(contains(step, o[0]) for o in items.values()):
                        continue
                    if b.op == 'num':
                        continue
                    if not contains(b, phi):
                        continue
                    induct[phi] = add(init, mul(k, step))
                    vals[key] = add(init, mul(cnt, step))
                    del items[key]
                    for o in items.values():
                        o[2] = subst(o[2], {phi: induct[phi]})
                    for kk in list(vals):
                        pass
                    changed = True
            for key in list(items):
                phi, init, b = items[key]
                others = [o[0] for kk, o in items.items()]
                if not any(contains(b, o) for o in others):
                    last = subst(b, {k: sub(cnt, ONE)})
                    vals[key] = ite(cmp_gt(cnt, ZERO), last, init) if init not in (UNDEF, UNSET) else last
                    # value at the start of iteration k when read elsewhere
                    readers = [kk for kk, o in items.items() if kk != key and contains(o[2], phi)]
                    if not readers:
                        del items[key]
                        continue
                    del vals[key]
                    continue
                r = self._accum(phi, init, b, k, cnt, others)
                if r is not None:
                    if not any(contains(o[2], phi) for kk, o in items.items() if kk != key):
                        vals[key] = r
                        del items[key]
        # general folds
        for key in items:
            vals[key] = self._fold(key, items, k, cnt, wcond, brk_c if not plain else FALSE, ret_c)
        return vals, induct

    def _accum(self, phi, init, b, k, cnt, others):
        """append / sum / indexed-store / max-min accumulation"""
        others = [o for o in others if o is not phi]
        if any(contains(b, o) for o in others):
            return None
        lv = tm.leaves(b)
        # append
        if all(x is phi or (x.op == 'cat' and x.args[0] is phi) for x in lv):
            def tail(x):
                return mk('list') if x is phi else cat(*x.args[1:])
            tl = lift(tail, b)
            if contains(tl, phi):
                return None
            tls = tm.leaves(tl)
            if len(tls) == 1 and tl.op == 'list' and len(tl.args) == 1:
                return cat(init, mapseq(cnt, k, tl.args[0]))
            ones = [x for x in tls if x.op == 'list' and len(x.args) == 1]
            zeros = [x for x in tls if x.op == 'list' and not x.args]
            if len(ones) + len(zeros) == len(tls):
                if zeros:
                    cond = lift(lambda x: TRUE if x.args else FALSE, tl)
                    val = lift(lambda x: x.args[0] if x.args else UNDEF, tl)
                    if not contains(cond, k):
                        return cat(init, ite(cond, mapseq(cnt, k, val), mk('list')))
                    return cat(init, bind('filter', cnt, k, (cond, val)))
                return cat(init, mapseq(cnt, k, lift(lambda x: x.args[0], tl)))
            return cat(init, bind('flatmap', cnt, k, (tl,))) if False else None
        # indexed store
        if all(x is phi or (x.op == 'store' and x.args[0] is phi) for x in lv):
            idxs = {x.args[1] for x in lv if x.op == 'store'}
            if len(idxs) == 1:
                i, = idxs
                if not contains(i, phi):
                    v = lift(lambda x: UNDEF if x is phi else x.args[2], b)
                    skip = any(x is phi for x in lv)
                    if not contains(v, phi) and not skip:
                        return self._stores(init, i, v, k, cnt)
                    if not contains(v, phi) or True:
                        # element may be read-modified at the same index: a[i] op= e
                        e = mk('idx', phi, i)
                        vv = lift(lambda x: index(phi, i) if x is phi else x.args[2], b)
                        v2 = subst(vv, {e: sym('$elem')})
                        if not contains(v2, phi):
                            return bind('stores', cnt, k, (i, v2), (init,))
        # sum
        if phi.args[1] != 'list' and all(x.op in ('poly', 'sym', 'num') or True for x in lv):
            d = sub(b, phi)
            if not contains(d, phi):
                return add(init, sumover(cnt, k, d))
        return None

    def _stores(self, init, i, v, k, cnt):
        if i is k:
            L = length(init)
            if L is cnt or npmodel.alloc_len(init) is cnt:
                return npmodel.tabulate(init, cnt, k, v)
            return bind('stores', cnt, k, (i, v), (init,))
        if i.op == 'tuple' and k in i.args:
            # a row/column of a matrix: keep position explicit
            return bind('stores', cnt, k, (i, v), (init,))
        return bind('stores', cnt, k, (i, v), (init,))

    def _fold(self, key, items, k, cnt, wcond, brk_c, ret_c):
        order = [key]
        i = 0
        phis = {o[0]: kk for kk, o in items.items()}

        def scan(t):
            # canonical discovery order: depth-first over the term
            seen = set()

            def rec(x):
                if x.dig in seen:
                    return
                seen.add(x.dig)
                if x in phis and phis[x] not in order:
                    order.append(phis[x])
                for ch in tm.children(x):
                    if any(p in tm.syms(ch) for p in phis):
                        rec(ch)
            rec(t)
        extra_terms = [x for x in (wcond, brk_c, ret_c) if x is not None and x is not FALSE]
        scan(items[key][2])
        for x in extra_terms:
            scan(x)
        while i < len(order):
            scan(items[order[i]][2])
            i += 1
        bodies = [items[o][2] for o in order]
        inits = tuple(items[o][1] for o in order)
        allb = bodies + extra_terms
        tag = 'fold'
        if cnt is None:
            tag = 'whilef'
        elif brk_c is not FALSE or ret_c is not FALSE:
            tag = 'foldb'
        n = cnt if cnt is not None else UNDEF
        if any(_hasref(x) for x in inits):
            pass
        return tm.bindfold(tag, n, k, [items[o][0] for o in order], allb, inits)


_rt = {}


def _refterms(v):
    r = _rt.get(v.dig)
    if r is None:
        r = _rt[v.dig] = [z for z in tm.walk(v) if z.op == 'ref'] if _hasref(v) else []
    return r


def _isboolish(v):
    if v.op in ('bool', 'ge0', 'gt0', 'eq0', 'ne0', 'eq', 'ne', 'in', 'notin', 'isnone', 'truthy', 'any', 'isinst', 'hasattr', 'exc', 'maskand', 'maskor'):
        return True
    if v.op == 'ite':
        return _isboolish(v.args[1]) and _isboolish(v.args[2])
    return False


def _plain(v):
    return tm.is_scalar(v)


_hr = {}


def _hasref(t):
    r = _hr.get(t.dig)
    if r is None:
        r = t.op in ('ref', 'view', 'meth', 'bmeth') or any(_hasref(c) for c in tm.children(t))
        _hr[t.dig] = r
    return r


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    return t


def _dict_items(v):
    """python dict of a literal dict term, or None"""
    out = {}
    while v.op == 'store':
        if v.args[1].op != 'str':
            return None
        out.setdefault(v.args[1].args[0], v.args[2])
        v = v.args[0]
    if v.op == 'dict0':
        return out
    return None
