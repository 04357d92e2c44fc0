"""Class models: the abstract object a class's constructor builds, havocked to
'any reachable history', and the effect summary of each method from there."""
import ast

from . import terms as tm
from .terms import mk, sym, num, ite, NONE, UNDEF, TRUE, FALSE, ZERO, subst, mapseq, length, fresh
from .interp import Interp, St, Cell, ref, UNSET, BOX_PARAMS, Unsupported
from . import interp as im

BATCH = {'fit', 'fit_score', 'score', 'fit_transform', 'transform', 'fit_score_partial', 'fit_transform_partial'}
SKIP = {'__init__', '__repr__', '__str__'}


class Summary:
    """Effect of one call."""

    def __init__(self, name, ret, st, events, outs, pre, params, interp):
        self.name, self.ret, self.st, self.events = name, ret, st, events
        self.pre, self.params, self.interp = pre, params, interp

    def ev(self, *kinds):
        return [e for e in self.events if e.kind in kinds]


def param_value(I, st, name, default=None, prefix=''):
    nm = prefix + name
    if name in BOX_PARAMS:
        oid = 'param:' + nm
        st.heap[oid] = Cell('any', content=sym(nm), origin=('param', name), name=nm)
        return ref(oid)
    if tm.INTPAT.search(name):
        return sym(nm, 'int')
    kind = 'num' if name in ('num', 'score') else 'any'
    if default is not None and isinstance(default, ast.Constant) and isinstance(default.value, bool):
        kind = 'bool'
    elif default is not None and isinstance(default, ast.Constant) and isinstance(default.value, (int, float)):
        kind = 'num'
    return sym(nm, kind)


def sig_params(func):
    a = func.node.args
    pos = list(a.posonlyargs) + list(a.args)
    d = {}
    for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        d[p.arg] = v
    for p, v in zip(a.kwonlyargs, a.kw_defaults):
        if v is not None:
            d[p.arg] = v
    names = [p.arg for p in pos] + [p.arg for p in a.kwonlyargs]
    return names, d, a.vararg, a.kwarg


def _ghosts(st):
    """the seed the global generators were last given in this call"""
    for g in ('numpy', 'random'):
        st.heap['rng$' + g] = Cell('opaque', content=tm.NONE, origin='ghost', name='rng$' + g)


class ClassModel:
    def __init__(self, prog, qual, presets=None, hooks=None, methods=None, havoc=True, init=True):
        self.prog = prog
        self.cls = prog.cls(qual)
        self.qual = qual
        self.presets = presets or {}
        self.hooks = hooks or {}
        self.changed = set()
        self.downgraded = set()
        self.elem = {}
        self.kinds = {}
        self._sum = {}
        self.init_events = []
        self.only = methods
        self._init()
        if havoc:
            self._fix()

    # --- construction
    def interp(self):
        I = Interp(self.prog)
        I.hooks = self.hooks
        return I

    def _init(self):
        I = self.interp()
        st = St({}, {})
        st.heap['self'] = Cell('inst', cls=self.cls, fields={}, name='self', origin='self')
        _ghosts(st)
        r = ref('self')
        f = self.prog.find_method(self.cls, '__init__')
        self.init_params = {}
        if f is not None:
            args, kw = self._args(I, st, f)
            self.init_params = dict(kw)
            I.call_func(st, f, [r], kw, f.node)
        self.init_st = st
        self.init_events = I.events
        self.init_interp = I

    def _args(self, I, st, f, values=None):
        names, dflt, va, kwa = sig_params(f)
        kw = {}
        names = names[1:] if f.cls is not None and not f.has_deco('staticmethod') else names
        for nm in names:
            if values and nm in values:
                kw[nm] = values[nm]
            elif nm in self.presets:
                kw[nm] = self.presets[nm]
            else:
                kw[nm] = param_value(I, st, nm, dflt.get(nm))
        if kwa is not None:
            oid = 'param:' + kwa.arg
            kw['**'] = sym(kwa.arg, 'dict')
        return [], kw

    def methods(self):
        out = []
        for k in self.prog.mro(self.cls):
            for b in k.node.body:
                if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)) and not b.name.startswith('_') and b.name not in out:
                    out.append(b.name)
        out = [m for m in out if not (m in BATCH and self._core(m))]
        if self.only is not None:
            out = [m for m in out if m in self.only]
        return out

    def _core(self, m):
        f = self.prog.find_method(self.cls, m)
        return f.cls is not None and f.cls is not self.cls and '.core.' in f.cls.qual

    # --- havoc
    def _name_drawn(self):
        """large randomly drawn constants keep their name instead of being inlined"""
        out, seen = self._reach(self.init_st)
        for (kind, path), tgt in out.items():
            if kind == 'f':
                v = self.init_st.heap[tgt[1]].fields[tgt[2]]
                if v.op != 'ref' and not im._hasref(v) and _drawn(v):
                    self.changed.add(('f', path))
                    self.kinds.setdefault(path, self._classify(self.init_st, v))
            else:
                c = self.init_st.heap[tgt[1]]
                if c.kind in ('list', 'arr') and c.content is not None and not im._hasref(c.content) and _drawn(c.content):
                    self.changed.add(('c', path))

    def _fix(self):
        self._name_drawn()
        for rnd in range(12):
            n0 = (len(self.changed), len(self.downgraded), len(self.elem))
            self._sum = {}
            self.base = self._havoc()
            for m in self.methods():
                f = self.prog.find_method(self.cls, m)
                if f.abstract or f.has_deco('staticmethod') or f.has_deco('classmethod'):
                    continue
                s = self.run(m)
                self._collect(s)
            if (len(self.changed), len(self.downgraded), len(self.elem)) == n0:
                break

    def _reach(self, st):
        """path -> oid / (oid, field) for everything reachable from self."""
        out = {}
        seen = {}
        used = set()

        def go(path, v, ks):
            base = path
            for lf in tm.leaves(v):
                path = base
                if lf.op == 'view':
                    lf = lf.args[0]
                if lf.op == 'ref':
                    oid = lf.args[0]
                    if oid in seen or oid not in st.heap:
                        continue
                    i = 1
                    while path in used:
                        i += 1
                        path = base + '~%d' % i
                    used.add(path)
                    seen[oid] = path
                    c = st.heap[oid]
                    if c.kind == 'inst':
                        for f, fv in c.fields.items():
                            out['f', path + '.' + f] = ('f', oid, f)
                            go(path + '.' + f, fv, c.ks)
                    else:
                        out.setdefault(('c', path), ('c', oid))
                        if c.content is not None and c.content.op == 'list' and c.kind == 'list' and all(x.op == 'ref' for x in c.content.args):
                            for i, x in enumerate(c.content.args):
                                go(path + '[#%d]' % i, x, c.ks)
                        elif c.content is not None:
                            for x in _refs(c.content):
                                go(path + '[*]', x, c.ks)
                elif im._hasref(lf):
                    for x in _refs(lf):
                        go(path + '[*]', x, ())
        go('self', ref('self'), ())
        return out, seen

    def _havoc(self):
        st = self._cur = St({}, dict(self.init_st.heap))
        _ghosts(st)
        out, seen = self._reach(st)
        self.paths = out
        # havoc cell contents first
        for (_, path), tgt in out.items():
            if tgt[0] == 'c' and ('c', path) in self.changed:
                c = st.heap[tgt[1]]
                st.heap[tgt[1]] = c.rep(content=self._hv(path, c, c.ks), name=path)
        for path in sorted({p for k, p in self.changed if k == 'f'}):
            tgt = out.get(('f', path))
            parent, f = path.rsplit('.', 1)
            if tgt is None or tgt[0] != 'f':
                # a field not created by the constructor
                p = [oid for oid, pp in seen.items() if pp == parent]
                if not p:
                    continue
                oid = p[0]
            else:
                oid = tgt[1]
            c = st.heap[oid]
            old = c.fields.get(f, UNSET)
            fs = dict(c.fields)
            fs[f] = self._hfield(st, path, old, c.ks)
            st.heap[oid] = c.rep(fields=fs)
        return st

    def _at(self, s, ks):
        return mk('at', s, tuple(ks)) if ks else s

    def _hv(self, path, c, ks):
        kind = {'list': 'list', 'deque': 'list', 'dict': 'dict', 'set': 'set'}.get(c.kind, 'any')
        s = self._at(sym(path, kind), ks)
        el = self.elem.get(path)
        if el is not None:
            return el(s)
        return s

    def _hfield(self, st, path, old, ks):
        info = self.kinds.get(path, {'leafs': set()})
        kinds = info['leafs']
        s = self._at(sym(path, 'any'), ks)
        conts = {k for k in kinds if k[0] == 'cell'}
        insts = {k for k in kinds if k[0] == 'inst'}
        others = kinds - conts - insts
        val = None
        if insts and len(insts) == 1 and not conts and not (others - {('none',), ('unset',)}):
            q = next(iter(insts))[1]
            oid = 'h:' + path
            tmpl = info['tmpl'].get(('inst', q))
            val = self._hinst(st, oid, path, q, tmpl, ks)
        elif conts and not insts and not (others - {('none',), ('unset',)}) and not self._init_scalar(path):
            ck = {k[1] for k in conts}
            kind = ck.pop() if len(ck) == 1 else 'any'
            oid = 'h:' + path
            sk = {'list': 'list', 'deque': 'list', 'dict': 'dict', 'set': 'set'}.get(kind, 'any')
            if ('none',) in others or ('unset',) in others:
                sk = 'any' if sk == 'any' else sk
            ml = info.get('maxlen')
            cc = Cell(kind, content=None, origin='self', name=path, ks=tuple(ks), maxlen=ml)
            cc.content = self._hv(path, cc, ks)
            st.heap[oid] = cc
            val = ref(oid, ks)
        else:
            kind = 'any'
            if self._init_scalar(path) and kinds <= {('int',), ('num',), ('bool',), ('any',), ('cell', 'arr')} and kinds - {('int',), ('bool',)}:
                kind = 'num'
            elif kinds and all(k in (('int',), ('num',), ('bool',)) for k in kinds):
                if kinds == {('bool',)}:
                    kind = 'bool'
                elif path in self.downgraded or ('num',) in kinds or ('bool',) in kinds:
                    kind = 'num'
                else:
                    kind = 'int'
            return self._wrap(path, self._at(sym(path, kind), ks), others, ks)
        return self._wrap(path, val, others, ks)

    def _wrap(self, path, val, others, ks):
        s = self._at(sym(path), ks)
        if ('none',) in others and (val.op == 'ref' or val.op == 'sym' and val.args[1] in ('list', 'dict')):
            val = ite(mk('isnone', s), NONE, val)
        if ('unset',) in others:
            val = ite(mk('isunset', s), UNSET, val)
        return val

    def _hinst(self, st, oid, path, q, tmpl, ks):
        cls = self.prog.classes[q]
        fields, views = {}, {}
        for f, k in (tmpl or {}).items():
            p = path + '.' + f
            if p not in self.kinds:
                self.kinds[p] = {'leafs': set(k['leafs']), 'tmpl': k.get('tmpl', {}), 'maxlen': k.get('maxlen')}
            v = self._view_of(self.kinds[p]['leafs'])
            if v is not None:
                views[f] = v
                continue
            fields[f] = self._hfield(st, p, UNSET, ks)
        for f, (g, pth) in views.items():
            base = fields.get(g)
            if base is not None and base.op == 'ref':
                fields[f] = ref(base.args[0], ks, base.args[2] + pth)
            else:
                self.kinds[path + '.' + f]['leafs'] = {('cell', 'arr')}
                fields[f] = self._hfield(st, path + '.' + f, UNSET, ks)
        st.heap[oid] = Cell('inst', cls=cls, fields=fields, name=path, origin='self', ks=tuple(ks))
        return ref(oid, ks)

    @staticmethod
    def _view_of(leafs):
        vs = [l for l in leafs if l[0] == 'view']
        if not vs:
            return None
        if len(leafs) == 1:
            return vs[0][1], vs[0][2]
        for l in vs:
            leafs.discard(l)
        leafs.add(('cell', 'arr'))
        return None

    def _classify(self, st, v, depth=0):
        leafs = set()
        tmpl = {}
        ml = None
        for lf in tm.leaves(v):
            if lf is NONE:
                leafs.add(('none',))
            elif lf is UNSET:
                leafs.add(('unset',))
            elif lf is UNDEF:
                continue
            elif lf.op == 'ref':
                c = st.heap.get(lf.args[0])
                if c is None:
                    leafs.add(('any',))
                elif c.kind == 'inst':
                    leafs.add(('inst', c.cls.qual))
                    t = tmpl.setdefault(('inst', c.cls.qual), {})
                    if depth < 3:
                        plain = {fv.args[0]: f for f, fv in c.fields.items() if fv.op == 'ref' and not fv.args[2]}
                        for f, fv in c.fields.items():
                            k = self._classify(st, fv, depth + 1)
                            if fv.op == 'ref' and fv.args[2] and plain.get(fv.args[0], f) != f:
                                k = {'leafs': {('view', plain[fv.args[0]], fv.args[2])}, 'tmpl': {}, 'maxlen': None}
                            if f in t:
                                t[f]['leafs'] |= k['leafs']
                            else:
                                t[f] = k
                elif lf.args[2]:
                    leafs.add(('cell', 'arr'))
                else:
                    leafs.add(('cell', c.kind))
                    ml = ml or c.maxlen
            elif lf.op == 'view':
                leafs.add(('cell', 'arr'))
            elif lf.op in ('map', 'list', 'cat') and not im._hasref(lf):
                leafs.add(('cell', 'list'))
            elif tm.is_int(lf):
                leafs.add(('int',))
            elif lf.op == 'c' or tm.is_scalar(lf):
                leafs.add(('num',))
            elif lf.op in ('num', 'poly') or (lf.op == 'sym' and lf.args[1] == 'num'):
                leafs.add(('num',))
            elif lf.op == 'at' and lf.args[0].op == 'sym' and lf.args[0].args[1] in ('num', 'int'):
                leafs.add((lf.args[0].args[1],))
            elif lf.op == 'bool' or im._isboolish(lf):
                leafs.add(('bool',))
            elif lf.op == 'each':
                for x in lf.args[2:]:
                    k = self._classify(st, x, depth)
                    leafs |= k['leafs']
                    tmpl.update(k['tmpl'])
            elif lf.op == 'eupd':
                for x in (lf.args[0], lf.args[2]):
                    k = self._classify(st, x, depth)
                    leafs |= k['leafs']
                    tmpl.update(k['tmpl'])
            else:
                leafs.add(('any',))
        return {'leafs': leafs, 'tmpl': tmpl, 'maxlen': ml}

    def _collect(self, s):
        pre, post = s.pre, s.st
        out, seen = self._reach(pre)
        # fields of every instance reachable before the call
        for oid, path in seen.items():
            a, b = pre.heap[oid], post.heap.get(oid)
            if b is None or a is b:
                continue
            if a.kind == 'inst':
                for f, v in b.fields.items():
                    old = a.fields.get(f, UNSET)
                    if v is old:
                        continue
                    p = path + '.' + f
                    self.changed.add(('f', p))
                    k = self._classify(post, v)
                    k0 = self._classify(pre, old)
                    if old is UNSET:
                        k0['leafs'] = {('unset',)}
                    d = self.kinds.setdefault(p, {'leafs': set(), 'tmpl': {}, 'maxlen': None})
                    n0 = len(d['leafs'])
                    d['leafs'] |= k['leafs'] | k0['leafs']
                    init = self._init_leafs(p)
                    d['leafs'] |= init
                    d['maxlen'] = d['maxlen'] or k['maxlen'] or k0['maxlen']
                    for t in (k0['tmpl'], k['tmpl']):
                        for q, fs in t.items():
                            dd = d['tmpl'].setdefault(q, {})
                            for f2, kk in fs.items():
                                if f2 in dd:
                                    dd[f2]['leafs'] |= kk['leafs']
                                else:
                                    dd[f2] = kk
                    if len(d['leafs']) != n0:
                        self.downgraded.add((p, len(d['leafs'])))
                    for lf in tm.leaves(v):
                        if lf.op == 'ref' and not lf.args[2] and lf.args[0] in post.heap and post.heap[lf.args[0]].kind in ('list', 'deque'):
                            self._elems(p, post, post.heap[lf.args[0]].content)
            elif b.content is not a.content:
                self.changed.add(('c', path))
                self._elems(path, post, b.content)
                init = self.init_st.heap.get(oid)

    def _init_scalar(self, p):
        out, seen = self._reach(self.init_st)
        t = out.get(('f', p))
        if t is None or t[0] != 'f':
            return False
        v = self.init_st.heap[t[1]].fields[t[2]]
        return all(tm.is_scalar(x) for x in tm.leaves(v))

    def _init_leafs(self, p):
        out, seen = self._reach(self.init_st)
        t = out.get(('f', p))
        if t is None or t[0] != 'f':
            return set()
        return self._classify(self.init_st, self.init_st.heap[t[1]].fields[t[2]])['leafs']

    def _elems(self, path, post, content):
        """lists of analysed instances: keep the element class visible."""
        if path in self.elem or content is None or path.endswith('[*]'):
            return
        quals = set()
        srcs = []
        for x in tm.walk(content):
            if x.op == 'ref' and x.args[0] in post.heap and post.heap[x.args[0]].kind == 'inst':
                quals.add(post.heap[x.args[0]].cls.qual)
                srcs.append(x)
        if len(quals) != 1:
            return
        q, = quals
        k = self._classify(post, srcs[-1])
        tmpl = k['tmpl'].get(('inst', q), {})
        tmpl = {f: {'leafs': {l if l[0] != 'bool' else ('any',) for l in d['leafs']}, 'tmpl': d['tmpl'], 'maxlen': d.get('maxlen')} for f, d in tmpl.items()}
        me = self

        def build(s):
            kk = sym('$e:' + path, 'int')
            oid = 'h:' + path + '[*]'
            me._hinst(me._cur, oid, path + '[*]', q, tmpl, (kk,))
            k2 = fresh()
            return mapseq(length(s), k2, ref(oid, (k2,)))
        self.elem[path] = build

    # --- running
    def run(self, name, args=None, kw=None, base=None, fresh_params=True, values=None):
        """One call of the method from the havocked state."""
        key = name if (args is None and kw is None and base is None and values is None) else None
        if key and key in self._sum:
            return self._sum[key]
        f = self.prog.find_method(self.cls, name)
        if f is None:
            from .program import AnalysisError
            raise AnalysisError('anchor vanished: method %s.%s' % (self.qual, name))
        st = St({}, dict((base or self.base).heap))
        _ghosts(st)
        I = self.interp()
        a, k = self._args(I, st, f, values)
        if args is not None:
            names = sig_params(f)[0][1:]
            for nm, v in zip(names, args):
                k[nm] = v
        if kw:
            k.update(kw)
        pre = st.copy()
        r = I.call_func(st, f, [ref('self')], k, f.node)
        s = Summary(name, r, st, I.events, None, pre, k, I)
        if key:
            self._sum[key] = s
        return s


def _drawn(v, cap=20):
    n, drawn = 0, False
    for x in tm.walk(v):
        n += 1 if x.op != 'ite' else cap
        drawn = drawn or x.op == 'rng'
        if n > 400:
            break
    return drawn and n > cap


def _refs(t):
    out = []
    seen = set()
    for x in tm.walk(t):
        if x.op == 'ref' and x.dig not in seen:
            seen.add(x.dig)
            out.append(x)
    return out
