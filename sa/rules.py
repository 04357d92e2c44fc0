"""Rules over effect summaries, the import graph and pairs of transition systems."""
import ast
import os
import random

from . import terms as tm
from .terms import NONE, UNDEF, TRUE, FALSE, T
from . import compare as cp
from .classmodel import ClassModel, BATCH, sig_params
from .machine import Machine, canon, famkey, _freek, FamT
from .program import Program, alias_for, AnalysisError
from .evalterm import NotEvaluable, Err, Ctx, same
from .registry import C
from .interp import UNSET

PER_CLASS = {'inputs_unmodified', 'read_only', 'returns_self', 'randomness', 'bounded_memory', 'no_sharing', 'defaults', 'options_used', 'stale_cache',
             'batch_overrides', 'combined_overrides'}
PRIVATE = {'_Chain', '_HSChains', 'corClust', 'dA', 'KitNET'}
PROBES = {n for n in C if n.endswith('Probe')}
SPLIT = {'ConformalProbabilityCalibrator', 'GaussianTailProbabilityCalibrator', 'HalfSpaceTrees'}


def _names(prog, probes=True):
    return [n for n in C if n not in PRIVATE and (probes or n not in PROBES)]


def _others(prog):
    have = {c['cls'] for c in C.values()} | PRIVATE
    out = []
    for q, c in sorted(prog.classes.items()):
        if q != c.qual or q.split('.')[0] != 'pysad' or c.node.name in have or c.node.name.startswith('_'):
            continue
        if '.core.' in q or any(f.abstract for f in _allmethods(prog, c).values()):
            continue
        out.append(q)
    return out


def _allmethods(prog, c):
    out = {}
    for k in prog.mro(c):
        for n, f in k.methods.items():
            out.setdefault(n, f)
    return out


def subjects(rule, prog):
    if rule in ('inputs_unmodified', 'randomness', 'no_sharing', 'stale_cache'):
        ns = [n for n in _names(prog) if not n.startswith(('Abs', 'Running')) or n in ('AbsMaxMeter', 'RunningMedianMeter') or 'Postprocessor' in n]
        return [n for n in ns if '/' not in n] + _others(prog)
    if rule == 'returns_self':
        return [n for n in _names(prog) if C[n]['cls'] not in NOT_SELF] + ['pysad.models.inqmad.Inqmad']
    if rule == 'read_only':
        return [n for n in _names(prog, False) if n not in SPLIT and not n.endswith('Probe')]
    if rule == 'bounded_memory':
        return [n for n in _names(prog, False) if n not in SPLIT and not n.endswith('Probe') and n not in GROWS]
    if rule in ('defaults', 'options_used'):
        return [n for n in _names(prog, False) if '/' not in n and not (n.startswith(('Abs', 'Running')) and 'Meter' in n)]
    if rule in ('batch_overrides', 'combined_overrides'):
        return [n for n in _names(prog, False) if '/' not in n and not n.endswith(('Meter', 'Metric', 'Window')) and n != 'RunningAny']
    return []


NOT_SELF = {'Window', 'UnlimitedWindow', 'PrecisionMetric', 'RecallMetric', 'AUROCMetric', 'AUPRMetric', 'WindowedMetric',
            'ArrayStreamerProbe', 'PandasStreamerProbe', 'MinMaxProbe', 'DataProbe', 'SeedProbe'}
GROWS = {'UnlimitedWindow', 'MaxMeter', 'MinMeter', 'MedianMeter', 'AbsMaxMeter', 'AbsMinMeter', 'AbsMedianMeter', 'MaxPostprocessor', 'MedianPostprocessor',
         'PrecisionMetric', 'RecallMetric', 'AUROCMetric', 'AUPRMetric', 'MedianAbsoluteDeviation', 'ConformalProbabilityCalibrator/False', 'PerfectModel', 'RSHash',
         'StandardAbsoluteDeviation', 'WindowedMetric'}


class R:
    def __init__(self):
        self.ob, self.ok, self.viol, self.open, self.parts = 0, 0, [], [], []

    def good(self, what):
        self.ob += 1
        self.ok += 1
        self.parts.append((what, True))

    def bad(self, what, key, where, detail):
        self.ob += 1
        self.parts.append((what, False))
        self.viol.append(dict(key=key, where=where, detail=detail))

    def unk(self, what, detail):
        self.ob += 1
        self.parts.append((what, False))
        self.open.append('%s: %s' % (what, detail))

    def out(self):
        st = 'violated' if self.viol else 'undecided' if self.open else 'proved'
        return dict(status=st, detail='; '.join(self.open)[:600] if not self.viol else self.viol[0]['detail'], obligations=self.ob, proved=self.ok, violations=self.viol,
                    parts=self.parts)


def run(name, prog, here, seed, runs):
    name, _, arg = name.partition(':')
    r = R()
    globals()['rule_' + name](r, prog, arg, here, seed, runs)
    return r.out()


def spec_prog(prog, here):
    return Program({'spec': os.path.join(here, 'spec')}, alias_for(prog))


def machine(prog, name):
    """class model and machine of a subject (registry name or qualified class)"""
    if name in C:
        cfg = C[name]
        q = cp.find_class(prog, cfg['cls'])
        if q is None:
            raise AnalysisError('class %s not found' % cfg['cls'])
        return cp.models_of(prog, q, prog, q, cfg)[0], cfg
    return Machine(ClassModel(prog, name)), None


def pair(prog, here, name):
    cfg = C[name]
    sp = spec_prog(prog, here)
    q, s = cp.find_class(prog, cfg['cls']), cp.find_class(sp, cfg['cls'])
    if q is None:
        raise AnalysisError('class %s not found' % cfg['cls'])
    A, B = cp.models_of(prog, q, sp, s, cfg)
    return A, B, cfg


def sums(M, names=None):
    yield '__init__', M.init_events, None
    for m in M.methods() if names is None else names:
        f = M.prog.find_method(M.cls, m)
        if f is None or f.abstract or f.has_deco('staticmethod') or f.has_deco('classmethod'):
            continue
        s = M.run(m)
        yield m, s.events, s


def loc(e):
    return '%s:%s' % e.loc if e.loc else '?'


# ------------------------------------------------------------------ C03
def rule_inputs_unmodified(r, prog, name, here, seed, runs):
    A, cfg = machine(prog, name)
    M = A.M
    borrowed = _borrowed(M)
    for m, events, s in sums(M):
        bad = []
        for e in events:
            if e.guard is FALSE:
                continue
            if e.kind == 'mutate':
                o = e.data.get('origin')
                if isinstance(o, tuple) and o[0] == 'param' and not _scalar_item(e):
                    bad.append((e, o[1]))
                elif e.data.get('oid') in borrowed and not _scalar_item(e):
                    bad.append((e, borrowed[e.data['oid']]))
            elif e.kind == 'mutval':
                v = e.data['val']
                p = _param_part(v)
                if p is not None and not _scalar_item(e):
                    bad.append((e, p))
        if not bad:
            r.good('%s.%s writes into none of its arguments' % (name, m))
        else:
            seen = set()
            for e, p in bad:
                if (p, e.fn) in seen:
                    continue
                seen.add((p, e.fn))
                r.bad('%s.%s' % (name, m), '%s.%s(%s)' % (name, m, p), loc(e), '%s.%s writes into its argument %s (%s in %s)' % (name, m, p, e.data.get('how'), e.fn))


def _scalar_item(e):
    """in-place arithmetic on an element obtained by a single index: a scalar copy for 1-d data"""
    x = e.data.get('ref')
    how = str(e.data.get('how') or '')
    if x is None or 'aug' not in how:
        return False
    return bool(x.args[2]) and x.args[2][-1][0] == 'idx'


def _param_part(v):
    while v.op in ('idx', 'view', 'attr', 'mcall', 'reshape'):
        a = v.args[0]
        if not isinstance(a, T):
            return None
        v = a
    if v.op == 'sym' and v.args[0] in ('X', 'y', 'scores', 'y_true', 'y_pred'):
        return v.args[0]
    return None


def _borrowed(M):
    """state cells that may be the caller's array (a method stored its argument itself)"""
    out = {}
    try:
        ms = [(m, s) for m, ev, s in sums(M) if s is not None]
    except Exception:
        return out
    for m, s in ms:
        reach, seen = M._reach(s.pre)
        for oid, path in seen.items():
            a = s.st.heap.get(oid)
            if a is None or a.kind != 'inst':
                continue
            for f, v in a.fields.items():
                for lf in tm.leaves(v):
                    if lf.op == 'ref' and lf.args[0].startswith('param:') and lf.args[0] in s.st.heap:
                        c = s.st.heap[lf.args[0]]
                        if isinstance(c.origin, tuple) and c.origin[0] == 'param':
                            out['h:%s.%s' % (path, f)] = '%s (kept from an earlier call)' % c.origin[1]
    return out


# ------------------------------------------------------------------ C05
SELFY = ('fit', 'fit_partial', 'update', 'remove')


def rule_returns_self(r, prog, name, here, seed, runs):
    A, cfg = machine(prog, name)
    M = A.M
    for m in SELFY:
        f = prog.find_method(M.cls, m)
        if f is None or f.abstract or (cfg and m not in cfg['methods'] and m not in ('fit',)):
            continue
        s = M.run(m)
        wrong, unk = [], []
        for lf in tm.leaves(s.ret):
            if lf.op == 'ref' and lf.args[0] == 'self':
                continue
            if lf is UNDEF:
                continue
            if lf is NONE or lf.op in ('ref', 'num', 'c', 'list', 'new', 'bool', 'str', 'rng', 'poly'):
                wrong.append(lf)
            else:
                unk.append(lf)
        where = '%s:%s %s' % (f.module.path, f.node.lineno, f.qual)
        if not wrong and not unk:
            r.good('%s.%s returns the component on every path' % (name, m))
        elif not wrong:
            r.unk('%s.%s' % (name, m), 'returned value not resolved')
        elif s.ret.op != 'ite' or len(wrong) == len([l for l in tm.leaves(s.ret) if l is not UNDEF]):
            r.bad('%s.%s' % (name, m), '%s.%s' % (name, m), where, '%s.%s returns %s instead of the component' % (name, m, _tstr(wrong[0])))
        else:
            w = _wrong_path(A, cfg, m, seed, runs) if cfg else None
            if w:
                r.bad('%s.%s' % (name, m), '%s.%s' % (name, m), where, '%s.%s returns %s instead of the component on some path; e.g. %s' % (name, m, _tstr(wrong[0]), w))
            else:
                r.unk('%s.%s' % (name, m), 'a path returning %s was not shown reachable' % _tstr(wrong[0]))


def _tstr(t):
    return 'None' if t is NONE else str(t)[:60]


def _wrong_path(A, cfg, m, seed, runs):
    """a reachable call of m whose return value is not the component"""
    t = A.M.run(m)

    methods = [x for x in cfg['methods']]
    sel = tm.mk('sym', '$isself', 'bool')
    ret = A.M.run(m).ret

    def leaf(x):
        return tm.num(1) if x.op == 'ref' and x.args[0] == 'self' else tm.num(0)
    try:
        flag = _flag(t.interp, t.st, ret)
    except Exception:
        return None
    pa = sorted(A.closure(methods) | A.state_syms(flag))
    dA = cp.defaults_of(A.M.prog, A.M.cls)
    from .evalterm import Eval
    import time
    t0 = time.process_time()
    hot = {h for h in cp.constants(A, methods, pa) if 0 < abs(h) < 10 ** 10}
    nan = cp.nantests(A, methods, pa)
    for i in range(runs):
        if time.process_time() - t0 > cp.BUDGET:
            break
        g = cp.Gen('%s/%d' % (seed, i), hot if i % 2 else ())
        params = dict(cfg['params'](g))
        if nan and i % 3 == 2:
            g.missing(i)
        hist = list(cfg['history'](g, params))
        ctx = Ctx('%s/%d' % (seed, i))
        ctx.models = dict(cfg.get('models', {}))
        pA = dict(dA)
        pA.update({k: v for k, v in params.items() if k[0] != '$'})
        trace = []
        try:
            e, st = A.init(ctx, pA, pa)
            if e:
                continue
            for mm, args in hist:
                if mm not in methods:
                    continue
                trace.append((mm, args))
                if mm == m:
                    env = dict(pA)
                    env.update(st)
                    env.update(args)
                    E = Eval(ctx, env)
                    if not A._raised(E, m) and E.ev(flag) == 0:
                        return 'constructor(%s); %s' % (cp._short(params), '; '.join('%s(%s)' % (a, cp._short(b)) for a, b in trace[-8:]))
                rr, st = A.step(ctx, pA, st, mm, args, pa)
                if rr[0] in ('err', 'raise'):
                    break
        except (NotEvaluable, Err):
            continue
    return None


def _flag(I, st, v):
    if v.op == 'ite':
        return tm.ite(I.fz(st, v.args[0]), _flag(I, st, v.args[1]), _flag(I, st, v.args[2]))
    return tm.num(1) if (v.op == 'ref' and v.args[0] == 'self') or v is UNDEF else tm.num(0)


# ------------------------------------------------------------------ C04
READS = ('score_partial', 'transform_partial', 'get')


def rule_read_only(r, prog, name, here, seed, runs):
    A, B, cfg = pair(prog, here, name)
    methods = [m for m in cfg['methods'] if m != '__init__']
    reads = [m for m in methods if m in READS]
    pa = A.closure(methods)
    dirty = []
    for m in reads:
        for p in sorted(pa):
            if _unchanged(A, m, p):
                r.good('%s.%s leaves %s unchanged' % (name, m, p))
            else:
                dirty.append((m, p))
    if not dirty:
        return
    pb = B.closure(methods)
    w = _hyper(A, B, cfg, methods, reads, sorted(pa), sorted(pb), seed, max(runs, 60))
    for m, p in dirty:
        f = prog.find_method(A.M.cls, m)
        if w and w[0] == 'diff':
            r.bad('%s.%s changes %s' % (name, m, p), '%s.%s' % (name, m), '%s:%s %s' % (f.module.path, f.node.lineno, f.qual),
                  '%s.%s changes %s, and a later result with it: %s' % (name, m, p, w[1]))
        elif _same_dirty(A, B, m, p):
            r.good('%s.%s changes %s exactly as the reference does' % (name, m, p))
        else:
            r.unk('%s.%s changes %s' % (name, m, p), 'no later result shown to depend on it (%s)' % (w[1] if w else ''))


def _unchanged(A, m, p):
    try:
        t = A.post(m, p)
    except NotEvaluable:
        return False
    try:
        s = A.M.run(m)
        pre = A.read(s.interp, s.pre, p)
    except Exception:
        return False
    return famkey(t) == famkey(pre)


def _same_dirty(A, B, m, p):
    return cp._eqpost(A, B, m, p)


def _hyper(A, B, cfg, methods, reads, pa, pb, seed, runs):
    dA = cp.defaults_of(A.M.prog, A.M.cls)
    und = None
    hot = {h for h in cp.constants(A, methods, pa) ^ cp.constants(B, methods, pb) if abs(h) < 10 ** 10}
    groups = cp.shrinkable(A, B, methods, pa, pb)
    import time
    t0 = time.process_time()
    for i in range(20 * runs):
        if i >= runs and time.process_time() - t0 > cp.BUDGET:
            break
        g = cp.Gen('%s/%d' % (seed, i), hot)
        shrink = {}
        if groups and i % 2:
            shrink = cp.scaled(groups, g.r)
            g = cp.Gen('%s/%d' % (seed, i), {h for h in hot if h not in shrink} | set(shrink.values()))
        params = dict(cfg['params'](g))
        hist = [(m, a) for m, a in cfg['history'](g, params) if m in methods]
        rd = [(m, a) for m, a in hist if m in reads]
        if not rd:
            continue
        base, ext = [], []
        first = True
        for m, a in hist:
            if m in reads:
                z = g.r.random()
                if z < .4:
                    ext.append((m, a, None))
                    continue
            base.append((m, a))
            ext.append((m, a, len(base) - 1))
            if not first or m not in reads:
                if g.r.random() < .4:
                    ext.append(g.r.choice(rd) + (None,))
            first = False
        pA = dict(dA)
        pA.update({k: v for k, v in params.items() if k[0] != '$'})
        try:
            o = {}
            for side, X, px in (('A', A, pa), ('B', B, pb)):
                ctx = Ctx('%s/%d/0' % (seed, i))
                ctx.models = dict(cfg.get('models', {}))
                ctx.side = 'A'
                ctx.shrink = shrink if side == 'A' else {}
                a = _outs(X, ctx, pA, [(m, x, k) for k, (m, x) in enumerate(base)], px)
                ta = {k: {x: set(y) for x, y in v.items()} for k, v in ctx.draws.items()}, list(ctx.taint)
                ctx = Ctx('%s/%d/0' % (seed, i))
                ctx.models = dict(cfg.get('models', {}))
                ctx.side = 'A'
                ctx.shrink = shrink if side == 'A' else {}
                b = _outs(X, ctx, pA, ext, px)
                if ta[0] != ctx.draws or ta[1] or ctx.taint:
                    o = None
                    break
                o[side] = (a, b)
        except (NotEvaluable, Err) as ex:
            und = str(ex)
            continue
        if not o or o['A'][0] is None or o['B'][0] is None or o['A'][1] is None or o['B'][1] is None:
            continue
        (a0, a1), (b0, b1) = o['A'], o['B']
        for k in sorted(a0):
            if k not in a1 or k not in b0 or k not in b1:
                continue
            if not same(b0[k], b1[k]):
                break
            if cp.nonfinite(b0[k]):
                continue
            if not same(a0[k], a1[k]):
                return ('diff', 'constructor(%s); with %s the call %s(%s) gives %s, with the extra reads %s it gives %s' % (
                    cp._short(params), [m for m, _ in base[:k + 1]][-8:], base[k][0], cp._short(base[k][1]), cp._short(a0[k]), [m for m, _, _ in ext][:20], cp._short(a1[k])))
    return ('none', und)


def _outs(X, ctx, pA, hist, paths):
    e, st = X.init(ctx, pA, paths)
    if e:
        return None
    out = {}
    for m, a, k in hist:
        rr, ns = X.step(ctx, pA, st, m, a, paths)
        if rr[0] == 'err':
            if k is None:
                return None
            return out
        if rr[0] == 'raise':
            if k is None:
                return None
            return out
        st = ns
        if k is not None:
            out[k] = rr[1]
    return out


# ------------------------------------------------------------------ C06
NONDET_Q = ('time.', 'datetime.', 'os.urandom', 'os.getpid', 'uuid.', 'secrets.', 'threading.get_ident')


def rule_randomness(r, prog, name, here, seed, runs):
    A, cfg = machine(prog, name)
    M = A.M
    methods = [m for m in (cfg['methods'] if cfg else M.methods()) if m != '__init__']
    for m, events, s in sums(M):
        bad = []
        for e in events:
            if e.guard is FALSE:
                continue
            if e.kind == 'setorder':
                bad.append((e, 'takes the elements of a set of strings in hash order'))
            elif e.kind == 'seed' and not (e.fn or '').endswith(('.fix_seed', 'Data.get_iterator')) and not _seed_from(e, ('seed',)):
                bad.append((e, 'reseeds a global generator'))
            elif e.kind == 'rngnew':
                a = list(e.data['args']) + [v for _, v in e.data['kw']]
                if e.data['name'].split('.')[-1] == 'SystemRandom' or not a or all(x is NONE for x in a):
                    bad.append((e, 'creates a generator that no seed governs'))
                elif any(_nondet(x) for x in a):
                    bad.append((e, 'seeds a generator from %s' % _nondet(a[0])))
        for e, what in bad:
            r.bad('%s.%s' % (name, m), '%s.%s %s' % (name, m, e.data.get('name')), loc(e), '%s.%s %s (%s in %s)' % (name, m, what, e.data.get('name'), e.fn))
        if not bad:
            r.good('%s.%s: %d random draws, none from an ungoverned source' % (name, m, sum(1 for e in events if e.kind in ('rng', 'rngm'))))
        if s is not None and m in methods:
            x = _nondet(A.ret(m))
            if x:
                r.bad('%s.%s value' % (name, m), '%s.%s %s' % (name, m, x), name, 'the result of %s.%s depends on %s' % (name, m, x))
    ps = A.closure(methods)
    for p in sorted(ps):
        for m in ['__init__'] + methods:
            try:
                t = A.post(m, p)
            except NotEvaluable:
                continue
            x = _nondet(t)
            if x:
                r.bad('%s %s' % (name, p), '%s.%s %s' % (name, m, x), name, '%s of %s, on which results depend, is computed from %s in %s' % (p, name, x, m))
    r.good('%s: no result depends on time, identity, hashing order or the operating system' % name)


def _seed_from(e, names):
    return False


def _nondet(t):
    if isinstance(t, FamT):
        return _nondet(t.n) or _nondet(t.inner)
    if not isinstance(t, T):
        return None
    for x in tm.walk(t):
        if x.op == 'call' and isinstance(x.args[0], str):
            q = x.args[0]
            if q.startswith(NONDET_Q) or q in ('builtins.id', 'id', 'hash', 'builtins.hash'):
                if q in ('hash', 'builtins.hash') and x.args[1] and all(tm.is_scalar(a) for a in x.args[1]):
                    continue
                return q
            if q.split('.')[-1] in ('SystemRandom',) or (q.split('.')[-1] in ('default_rng', 'RandomState', 'Random') and not x.args[1] and not x.args[2]):
                return q + '()'
        if x.op == 'idx' and isinstance(x.args[0], T) and x.args[0].op == 'setof':
            return 'the order of a set'
        if x.op == 'call' and x.args[0] in ('list', 'tuple', 'numpy.array', 'iter') and x.args[1] and x.args[1][0].op == 'setof':
            return 'the order of a set'
    return None


# ------------------------------------------------------------------ C08
def _mutable_defaults(prog, M):
    """parameters whose default is one mutable object shared by all calls"""
    out = set()
    for k in prog.mro(M.cls):
        for f in k.methods.values():
            a = f.node.args
            pos = list(a.posonlyargs) + list(a.args)
            for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp, ast.SetComp)):
                    out.add(p.arg)
    return out


def _copies(M):
    """[x] * n with a mutable x: elements that are one object -> where, and the identities and fields that hold them"""
    out = []
    for m, events, s in sums(M):
        for e in events:
            if e.kind != 'replicate' or e.guard is FALSE or e.data['count'].op == 'num' and e.data['count'].args[0] <= 1:
                continue
            v = e.data['val']
            if v.op != 'list' or len(v.args) != 1 or v.args[0].op != 'ref':
                continue
            fields = set()
            for mod in M.prog.modules.values():
                if e.loc and mod.path == e.loc[0]:
                    for x in ast.walk(mod.tree):
                        if isinstance(x, ast.Assign) and x.lineno <= e.loc[1] <= (x.end_lineno or x.lineno):
                            fields |= {t.attr for t in x.targets if isinstance(t, ast.Attribute)}
            out.append((e, v.args[0].args[0], fields))
    return out


def _through(e, oid, fields):
    """the write e changes an element of the replicated list in place"""
    if e.kind != 'mutate':
        return False
    x = e.data.get('ref')
    if e.data.get('oid') == oid:
        return True
    nm = str(e.data.get('name') or '')
    last = nm.replace('[*]', '').split('.')[-1]
    return last in fields and x is not None and x.op == 'ref' and (nm.endswith('[*]') or any(p[0] == 'idx' for p in x.args[2]))


def rule_no_sharing(r, prog, name, here, seed, runs):
    A, cfg = machine(prog, name)
    M = A.M
    shared = _mutable_defaults(prog, M)
    copies = _copies(M)
    for m, events, s in sums(M):
        bad = []
        for e in events:
            if e.guard is FALSE or e.kind != 'mutate':
                continue
            o = e.data.get('origin')
            if isinstance(o, tuple) and o[0] == 'param' and o[1] in shared:
                bad.append((e, 'writes into %s, whose default value is one object shared by all instances,' % o[1]))
            for c, oid, fields in copies:
                if _through(e, oid, fields):
                    bad.append((e, 'writes into one element of a list whose elements (%s, %s) are all the same object' % (c.fn, loc(c))))
        for e in events:
            if e.guard is FALSE:
                continue
            if e.kind in ('classwrite', 'globalwrite', 'modwrite'):
                bad.append((e, {'classwrite': 'assigns the class attribute %s' % e.data.get('field'), 'globalwrite': 'assigns the module variable %s' % e.data.get('name'),
                                'modwrite': 'assigns the module attribute %s' % e.data.get('field')}[e.kind]))
            elif e.kind == 'mutate':
                o = e.data.get('origin')
                if isinstance(o, tuple) and o[0] in ('class', 'module', 'global', 'default'):
                    bad.append((e, 'writes into the shared object %s' % '.'.join(str(x) for x in o[1:])))
        for e, what in bad:
            r.bad('%s.%s' % (name, m), '%s.%s %s' % (name, m, e.data.get('field') or e.data.get('name')), loc(e), '%s.%s %s' % (name, m, what))
        if not bad:
            r.good('%s.%s writes only to its own instance' % (name, m))


# ------------------------------------------------------------------ C07
def rule_bounded_memory(r, prog, name, here, seed, runs):
    A, B, cfg = pair(prog, here, name)
    methods = [m for m in cfg['methods'] if m != '__init__']
    ca, cb = A.closure(methods), B.closure(methods)
    changed = set()
    for k, p in A.M.changed:
        changed.add(p)
    todo = []
    for p in sorted(ca | changed):
        if p in cb and all(cp._eqpost(A, B, m, p) for m in ['__init__'] + methods):
            r.good('%s evolves as in the reference, whose size is bounded' % p)
        elif _scalar_path(A, methods, p):
            r.good('%s is a single value' % p)
        else:
            todo.append(p)
    if not todo:
        return
    grew = []
    for p in todo:
        g = _growth(A, cfg, methods, sorted(ca), p, seed)
        if g is None:
            r.good('%s does not grow' % p)
        elif g[0] == 'grows':
            grew.append((p, g))
        else:
            r.unk(p, g[1])
    if not grew:
        return
    # whole-history statistics: the reference keeps as many growing components
    keeps = set()
    for p in sorted(cb):
        if not _scalar_path(B, methods, p):
            g = _growth(B, cfg, methods, sorted(cb), p, seed)
            if g is not None and g[0] == 'grows':
                keeps.add(p)
    rest = [(p, g) for p, g in grew if p not in keeps]
    spare = len(keeps - {p for p, g in grew})
    for p, g in grew:
        if p in keeps or (p, g) in rest[:spare]:
            r.good('%s grows as the statistic requires' % p)
        else:
            r.bad('%s grows' % p, '%s %s' % (name, p), name, '%s of %s grows with the stream: %s' % (p, name, g[1]))


def _scalar_path(A, methods, p):
    try:
        for m in ['__init__'] + methods:
            t = A.post(m, p)
            if isinstance(t, FamT):
                return False
            for lf in tm.leaves(t):
                if lf in (NONE, UNDEF, UNSET) or tm.is_scalar(lf) or lf.op == 'obj':
                    continue
                if lf.op == 'sym' and lf.args[1] in ('int', 'num', 'bool'):
                    continue
                if lf.op == 'sym' and lf.args[0] == p:
                    continue
                if lf.op in ('sym', 'num', 'str', 'bool', 'poly'):
                    continue
                return False
    except NotEvaluable:
        return False
    return True


def _size(v, d=0):
    import numpy as np
    if isinstance(v, np.ndarray):
        return int(v.size) if v.dtype != object else sum(_size(x, d + 1) for x in v.ravel())
    if isinstance(v, (list, tuple, set)):
        return sum(_size(x, d + 1) for x in v) + 1
    if isinstance(v, dict):
        return sum(_size(x, d + 1) for x in v.values()) + 1
    if hasattr(v, 'vals'):
        return sum(_size(x, d + 1) for x in v.vals)
    if hasattr(v, 'items') and isinstance(getattr(v, 'items'), list):
        return sum(_size(x, d + 1) for x in v.items)
    if isinstance(v, str):
        return 1
    return 1


def _growth(A, cfg, methods, ca, p, seed):
    """size of the component along one long interpretation of the transition system"""
    from .evalterm import Eval
    paths = sorted(set(ca) | {p} | _closed(A, methods, p))
    dA = cp.defaults_of(A.M.prog, A.M.cls)
    und = 'not interpretable'
    for i in range(6):
        g = cp.Gen('%s/%d' % (seed, i))
        params = dict(cfg['params'](g))
        hist = []
        first = list(cfg['history'](g, params))
        for _ in range(200):
            hist += [(m, a) for m, a in first if m in methods]
            if len(hist) > 400:
                break
            g2 = cp.Gen('%s/%d/%d' % (seed, i, _))
            try:
                first = list(cfg['history'](g2, params))
            except Exception:
                pass
        if name_needs_fixed_dim(first):
            pass
        ctx = Ctx('%s/%d' % (seed, i))
        ctx.models = dict(cfg.get('models', {}))
        pA = dict(dA)
        pA.update({k: v for k, v in params.items() if k[0] != '$'})
        try:
            e, st = A.init(ctx, pA, paths)
            if e:
                continue
            sizes = []
            for m, a in hist[:400]:
                rr, ns = A.step(ctx, pA, st, m, a, paths)
                if rr[0] in ('err', 'raise'):
                    continue
                st = ns
                sizes.append(_size(st[p]))
        except (NotEvaluable, Err) as ex:
            und = str(ex)
            continue
        n = len(sizes)
        if n < 100:
            und = 'history too short'
            continue
        a, b, c = max(sizes[:n // 3]), max(sizes[n // 3:2 * n // 3]), max(sizes[2 * n // 3:])
        if c > b > a and c - b >= n // 16 and (c - b) * 2 >= (b - a):
            return ('grows', 'sizes %d, %d, %d after %d, %d, %d calls (constructor(%s))' % (sizes[n // 3], sizes[2 * n // 3], sizes[-1], n // 3, 2 * n // 3, n, cp._short(params)))
        und = None
    return None if und is None else ('unknown', und)


def name_needs_fixed_dim(h):
    return False


def _closed(A, methods, p):
    todo, done = [p], set()
    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        for m in methods:
            try:
                todo += list(A.state_syms(A.post(m, x)))
            except NotEvaluable:
                pass
    return done


# ------------------------------------------------------------------ C09
REQUIRED = {'numpy', 'scipy', 'sklearn', 'statsmodels', 'pyod', 'combo'}


def rule_lazy_imports(r, prog, arg, here, seed, runs):
    optional = _optional(prog, here)
    std = set(__import__('sys').stdlib_module_names)
    seen = {}
    todo = [(m, (m,)) for m in sorted(prog.modules) if m.split('.')[0] == 'pysad']
    # every package/module of the library is importable by itself
    bad = {}
    n = 0
    for m, _ in todo:
        mod = prog.modules[m]
        for node, tgt in _toplevel_imports(prog, mod):
            n += 1
            root = tgt.split('.')[0]
            if root in ('pysad', 'probe') or root in std or root in REQUIRED:
                continue
            bad.setdefault((m, root), (mod.path, node.lineno))
    for (m, root), (path, line) in sorted(bad.items()):
        r.bad('%s imports %s' % (m, root), '%s imports %s' % (m, root), '%s:%d' % (path, line), 'importing %s requires %s, which is optional' % (m, root))
    r.good('%d module-level imports of %d modules' % (n, len(todo)))
    # optional packages are imported only by the components wrapping them
    OWN = {'jax': {'Inqmad', 'InqMeasurement', 'QFeatureMap_rff'}, 'rrcf': {'RobustRandomCutForest'}, 'mmh3': {'StreamhashProjector'}, 'PyNomaly': {'LocalOutlierProbability'},
           'pandas': {'PandasStreamer'}}
    users = {}
    for m, _ in todo:
        mod = prog.modules[m]
        for node in ast.walk(mod.tree):
            for tgt in _targets(prog, mod, node):
                root = tgt.split('.')[0]
                if root in OWN:
                    users.setdefault(root, set()).add(m)
    for root, ms in sorted(users.items()):
        homes = {c.module.name for q, c in prog.classes.items() if c.node.name in OWN[root]}
        for m in sorted(ms):
            if m in homes or not homes:
                r.good('%s imports %s inside the component that wraps it' % (m, root))
            elif _used_by_home(prog, m, homes):
                r.good('%s (helper of %s) imports %s' % (m, sorted(homes), root))
            else:
                r.bad('%s imports %s' % (m, root), '%s imports %s' % (m, root), prog.modules[m].path, '%s imports the optional package %s without wrapping it' % (m, root))
    # constructing or using a component that wraps nothing imports nothing optional
    own = {}
    for root, cs in OWN.items():
        for c in cs:
            own.setdefault(c, set()).add(root)
    uses_hash = {'xStream': {'mmh3'}}
    for name in _names(prog, False):
        if '/' in name or (name.startswith(('Abs', 'Running')) and 'Meter' in name and name != 'RunningMaxMeter'):
            continue
        try:
            A, cfg = machine(prog, name)
            imps = {}
            for m, events, s in sums(A.M):
                for e in events:
                    if e.kind == 'import' and e.guard is not FALSE:
                        root = str(e.data['name']).split('.')[0]
                        if root in OWN:
                            imps.setdefault(root, e)
        except Exception as ex:
            r.unk(name, str(ex)[:100])
            continue
        extra = set(imps) - own.get(cfg['cls'], set()) - uses_hash.get(cfg['cls'], set())
        for root in sorted(extra):
            r.bad('%s needs %s' % (name, root), '%s needs %s' % (name, root), loc(imps[root]), 'using %s imports the optional package %s' % (name, root))
        if not extra:
            r.good('%s imports only what it wraps: %s' % (name, sorted(imps)))


def _used_by_home(prog, m, homes):
    for h in homes:
        for node in ast.walk(prog.modules[h].tree):
            for tgt in _targets(prog, prog.modules[h], node):
                if tgt == m or tgt.startswith(m + '.'):
                    return True
    return False


def _optional(prog, here):
    return set()


def _targets(prog, mod, node):
    if isinstance(node, ast.Import):
        return [a.name for a in node.names]
    if isinstance(node, ast.ImportFrom):
        t = prog.abs_module(mod, node.module, node.level)
        return [t + '.' + a.name if t in prog.modules else t for a in node.names] or [t]
    if isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Constant) and isinstance(node.args[0].value, str):
        f = ast.unparse(node.func)
        if f in ('__import__', 'importlib.import_module', 'import_module'):
            return [node.args[0].value]
    return []


def _toplevel_imports(prog, mod):
    """imports executed when the module is imported and not guarded by an ImportError handler"""
    def go(body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Try) and any(_catches(h) for h in n.handlers):
                for h in n.handlers:
                    yield from go(h.body)
                yield from go(n.orelse)
                yield from go(n.finalbody)
                continue
            if isinstance(n, ast.If) and 'TYPE_CHECKING' in ast.unparse(n.test):
                yield from go(n.orelse)
                continue
            if isinstance(n, ast.With) and any('suppress' in ast.unparse(i.context_expr) and 'Error' in ast.unparse(i.context_expr) for i in n.items):
                continue
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for t in _targets(prog, mod, n):
                    yield n, t
            elif isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.ClassDef)):
                for f in ('body', 'orelse', 'finalbody'):
                    yield from go(getattr(n, f, []) or [])
                for h in getattr(n, 'handlers', []) or []:
                    yield from go(h.body)
            elif isinstance(n, (ast.Expr, ast.Assign, ast.AnnAssign)):
                for c in ast.walk(n):
                    if isinstance(c, ast.Call):
                        for t in _targets(prog, mod, c):
                            yield n, t
    yield from go(mod.tree.body)


def _catches(h):
    if h.type is None:
        return True
    s = ast.unparse(h.type)
    return any(x in s for x in ('ImportError', 'ModuleNotFoundError', 'Exception'))


# ------------------------------------------------------------------ C10
def rule_defaults(r, prog, name, here, seed, runs):
    """the class constructed with defaults vs. the reference constructed with the documented ones"""
    cfg = C[name]
    sp = spec_prog(prog, here)
    q, s = cp.find_class(prog, cfg['cls']), cp.find_class(sp, cfg['cls'])
    if q is None:
        raise AnalysisError('class not found')
    da, db = cp.defaults_of(prog, prog.cls(q)), cp.defaults_of(sp, sp.classes[s])
    fa, fb = prog.find_method(prog.cls(q), '__init__'), sp.find_method(sp.classes[s], '__init__')
    na = [n for n in sig_params(fa)[0] if n != 'self'] if fa else []
    nb = [n for n in sig_params(fb)[0] if n != 'self'] if fb else []
    for i, n in enumerate(nb):
        if n not in na:
            r.bad('option %s' % n, '%s(%s)' % (name, n), q, 'the constructor option %s of %s no longer exists' % (n, name))
            return
    names = [n for n in nb if n in db]
    for n in names:
        if n not in na:
            continue
        if n in da and _eqc(da[n], db[n]):
            r.good('%s: default of %s is %r' % (name, n, db[n]))
            continue
        has = fa and (n in sig_params(fa)[1])
        if not has:
            r.bad('default of %s' % n, '%s(%s)' % (name, n), q, '%s can no longer be constructed without %s' % (name, n))
            continue
        # written differently: compare the behaviour of the two defaults
        try:
            ea = da[n] if n in da else None
            if n not in da:
                r.unk('default of %s' % n, 'not a constant')
                continue
            w = _default_differs(prog, sp, q, s, cfg, n, ea, db[n], seed, runs)
        except Exception as ex:
            r.unk('default of %s' % n, str(ex)[:200])
            continue
        if w == 'same':
            r.good('%s: default of %s behaves as %r' % (name, n, db[n]))
        elif w:
            r.bad('default of %s' % n, '%s(%s)' % (name, n), '%s:%s %s' % (fa.module.path, fa.node.lineno, fa.qual), 'default of option %s of %s is %r, documented %r: %s' % (n, name, ea, db[n], w))
        else:
            r.unk('default of %s' % n, 'effect of %r instead of %r not separated' % (ea, db[n]))
    if not names:
        r.good('%s has no optional constructor arguments' % name)


def _eqc(a, b):
    return type(a) is type(b) and a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and float(a) == float(b))


def _const(v):
    return TRUE if v is True else FALSE if v is False else NONE if v is None else tm.num(v) if isinstance(v, (int, float)) else tm.strc(v)


def _default_differs(prog, sp, q, s, cfg, n, va, vb, seed, runs):
    """models of the implementation with its own default and with the documented value"""
    methods = [m for m in cfg['methods'] if m != '__init__']

    def mach(p, c, v):
        c2 = dict(cfg)
        c2['consts'] = dict(cfg.get('consts') or {}, **{n: v})
        return cp.models_of(p, c, p, c, c2)[0]
    A = mach(prog, q, va)
    B = mach(prog, q, vb)
    parts, pa, pb = cp.normal_form(A, B, methods)
    if all(e for _, e in parts):
        try:
            readable = all(A.post(m, p) is not None for p in A.closure(methods) for m in ['__init__'] + methods)
        except NotEvaluable:
            readable = False
        if readable:
            return 'same'
    c2 = dict(cfg)
    old = cfg['params']
    c2['params'] = lambda g: {k: v for k, v in old(g).items() if k != n}
    rr = cp.separate(A, B, c2, methods, sorted(pa), sorted(pb), seed, runs)
    if rr[0] == 'diff':
        w = rr[1]
        return '%s: %s vs %s' % (w[2], w[3], w[4])
    # two plain constants that reach the relevant state: different configurations, hence different behaviour
    if type(va) is type(vb) and isinstance(va, (int, float, str)) and va != vb or (isinstance(va, (int, float)) and isinstance(vb, (int, float)) and not isinstance(va, bool) and not isinstance(vb, bool)):
        return 'the value reaches %s' % [p for p, e in parts if not e][:3]
    return None


def rule_options_used(r, prog, name, here, seed, runs):
    A, B, cfg = pair(prog, here, name)
    methods = [m for m in cfg['methods'] if m != '__init__']
    fb = B.M.prog.find_method(B.M.cls, '__init__')
    fa = prog.find_method(A.M.cls, '__init__')
    if fa is None:
        r.good('%s has no options' % name)
        return
    names, d, va, kwa = sig_params(fa)
    names = [n for n in names if n != 'self'] + ([kwa.arg] if kwa else [])
    ua, ub = _used(A, methods), _used(B, methods)
    if ua is None:
        r.unk(name, 'state not readable')
        return
    for n in names:
        if n in A.M.presets:
            continue
        if n in ua:
            r.good('%s: option %s reaches the results' % (name, n))
        else:
            r.bad('option %s' % n, '%s(%s)' % (name, n), '%s:%s %s' % (fa.module.path, fa.node.lineno, fa.qual), 'option %s of %s influences neither results nor accepted configurations' % (n, name))
    # what reaches wrapped constructors
    ca, cb = _built(A, methods), _built(B, methods)
    if ca is None or cb is None:
        r.unk(name, 'constructions not readable')
    elif ca == cb:
        r.good('%s: %d wrapped objects are built with the configured options' % (name, len(ca)))
    else:
        x = cp.check_class(prog, A.M.qual, B.M.prog, B.M.qual if B.M.qual in B.M.prog.classes else cp.find_class(B.M.prog, cfg['cls']), cfg, seed, runs)
        if x.status == 'violated':
            r.bad('wrapped constructions', '%s wrapped' % name, x.where, 'wrapped objects of %s are not built with the configured options: %s' % (name, x.detail))
        elif x.status == 'proved':
            r.good('%s: wrapped objects equivalent' % name)
        else:
            r.unk('%s wrapped constructions' % name, x.detail[:200])


def _syms_of(t):
    if isinstance(t, FamT):
        return _syms_of(t.n) | _syms_of(t.inner)
    return {x.args[0] for x in tm.syms(t)} if isinstance(t, T) else set()


def _used(A, methods):
    """constructor parameters on which results, rejections or relevant state depend"""
    out = set()
    for m in ['__init__'] + methods:
        for _, g, loops, _ in A.raises(m):
            out |= _syms_of(g)
    for m in methods:
        out |= _syms_of(A.ret(m))
    for p in A.closure(methods):
        for m in ['__init__'] + methods:
            try:
                out |= _syms_of(A.post(m, p))
            except NotEvaluable:
                return None
    # objects the results depend on: external constructions in events
    for m, events, s in sums(A.M):
        for e in events:
            if e.kind in ('callv', 'ext', 'omcall', 'kwspread'):
                for k in ('args', 'kw', 'val', 'func'):
                    out |= _deep(e.data.get(k))
    return out


def _deep(v):
    if isinstance(v, T):
        return _syms_of(v)
    if isinstance(v, (tuple, list)):
        o = set()
        for x in v:
            o |= _deep(x)
        return o
    return set()


def _built(A, methods):
    """canonical constructor calls of third-party / configured classes"""
    out = set()
    for m in ['__init__'] + methods:
        ts = []
        if m != '__init__':
            ts.append(A.ret(m))
        for p in A.closure(methods):
            try:
                ts.append(A.post(m, p))
            except NotEvaluable:
                return None
        for t in ts:
            if isinstance(t, FamT):
                t = t.inner
            if isinstance(t, FamT):
                continue
            for x in tm.walk(t):
                if x.op == 'callv' or (x.op == 'call' and isinstance(x.args[0], str) and x.args[0].split('.')[-1][:1].isupper()):
                    if any(y.args[0].startswith('k$') for y in tm.syms(x)):
                        continue
                    out.add(canon(x).dig)
    return out


# ------------------------------------------------------------------ C40
def rule_stale_cache(r, prog, name, here, seed, runs):
    A, cfg = machine(prog, name)
    M = A.M
    changing = {p for k, p in M.changed}
    n = 0
    for m, events, s in sums(M):
        for e in events:
            if e.kind not in ('deco', 'cached') or e.guard is FALSE:
                continue
            n += 1
            q = e.data['func']
            f = prog.funcs.get(q)
            if f is None:
                continue
            # instance fields the compiled/cached function reads, for the receivers it is applied to
            args = f.node.args.args
            if not args or f.has_deco('staticmethod') and not f.cls:
                continue
            raw = e.data.get('args_raw') or ()
            reads = _self_reads(prog, f)
            recv = raw[0] if raw else None
            paths = []
            if recv is not None and recv.op == 'ref':
                pre = s.pre if s is not None else M.init_st
                _, seen = M._reach(pre)
                if recv.args[0] in seen:
                    paths = [seen[recv.args[0]]]
            if f.has_deco('staticmethod'):
                r.good('%s is compiled and takes all it uses as arguments' % q)
                continue
            hit = sorted(p for p in changing for base in paths for a in reads if p == '%s.%s' % (base, a) or p.startswith('%s.%s.' % (base, a)))
            if hit and paths:
                r.bad(q, '%s %s' % (q, hit[0]), '%s:%s %s' % (f.module.path, f.node.lineno, q), '%s is %s and reads %s, which later fitting changes' % (q, e.data.get('deco', 'cached'), hit))
            else:
                r.good('%s (compiled or cached) reads only state fixed at construction: %s' % (q, sorted(reads)))
    r.good('%s: %d uses of compiled or cached functions' % (name, n))


def _self_reads(prog, f, depth=0, seen=None):
    seen = seen or set()
    if f.qual in seen or depth > 6 or not f.node.args.args:
        return set()
    seen.add(f.qual)
    me = f.node.args.args[0].arg
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            g = prog.find_method(f.cls, n.attr) if f.cls else None
            if g is not None:
                out |= _self_reads(prog, g, depth + 1, seen)
            else:
                out.add(n.attr)
    return out


# ------------------------------------------------------------------ C01 / C02 overrides
BATCHES = ('fit', 'score', 'transform', 'fit_score', 'fit_transform')
COMBINED = ('fit_score_partial', 'fit_transform_partial', 'fit_score', 'fit_transform')
OWN_COMBINED = {'SeasonalESD', 'SeasonalHybridESD', 'ModifiedSTLResidualTransformer', 'SeasonalTrendDecomposer'}


def rule_batch_overrides(r, prog, name, here, seed, runs):
    _overrides(r, prog, name, here, seed, runs, BATCHES)


def rule_combined_overrides(r, prog, name, here, seed, runs):
    _overrides(r, prog, name, here, seed, runs, COMBINED)


def _overrides(r, prog, name, here, seed, runs, which):
    cfg = C[name]
    q = cp.find_class(prog, cfg['cls'])
    if q is None:
        raise AnalysisError('class not found')
    cls = prog.cls(q)
    core = [k for k in prog.mro(cls) if '.core.' in k.qual]
    over = []
    for m in which:
        f = prog.find_method(cls, m)
        if f is None:
            continue
        if '.core.' in f.cls.qual:
            r.good('%s.%s is the inherited composition of single-instance calls' % (name, m))
            continue
        if not any(m in k.methods for k in core):
            continue
        over.append((m, f))
    for m, f in over:
        where = '%s:%s %s' % (f.module.path, f.node.lineno, f.qual)
        if name in OWN_COMBINED and m in ('fit_score_partial', 'fit_transform_partial'):
            sp = spec_prog(prog, here)
            c2 = dict(cfg, methods=[x for x in cfg['methods'] if x in ('fit_partial',)] + [m], history=_own_history(m, cfg))
            x = cp.check_class(prog, q, sp, cp.find_class(sp, cfg['cls']), c2, seed, runs)
        else:
            p2 = Program(dict(prog.roots))
            c = p2.classes[f.cls.qual]
            del c.methods[m]
            c.node.body = [b for b in c.node.body if getattr(b, 'name', None) != m]
            singles = [x for x in cfg['methods'] if x.endswith('_partial')]
            c2 = dict(cfg, methods=list(dict.fromkeys(singles + [m])), history=_batch_history(m, cfg))
            x = cp.check_class(prog, q, p2, cp.find_class(p2, cfg['cls']), c2, seed, runs)
        if x.status == 'proved':
            r.good('%s.%s (own implementation) equals the composition of single-instance calls' % (name, m))
        elif x.status == 'violated':
            r.bad('%s.%s' % (name, m), '%s.%s' % (name, m), where, 'own implementation of %s.%s differs from the single-instance calls: %s' % (name, m, x.detail))
        else:
            r.unk('%s.%s' % (name, m), x.detail[:200])
    if not over and not r.ob:
        r.good('%s has no batch calls of its own' % name)


def _own_history(m, cfg):
    old = cfg['history']

    def h(g, p):
        out = []
        for mm, a in old(g, p):
            if mm == 'fit_partial':
                out.append((g.r.choice(['fit_partial', m, m]), {'X': a['X']} if 'transform' in m else dict(a)))
        return out
    return h


def _batch_history(m, cfg):
    import numpy as np
    old = cfg['history']

    def h(g, p):
        hist = list(old(g, p))
        out = []
        buf = []

        def flush():
            if not buf:
                return
            key = 'X' if 'X' in buf[0] else 'scores' if 'scores' in buf[0] else 'score'
            if m.endswith('_partial'):
                for a in buf:
                    out.append((m, dict(a)))
            else:
                vals = [a[key] for a in buf]
                arr = np.array(vals)
                a = {('scores' if key == 'score' else key): arr}
                if m in ('fit', 'fit_score') and 'y' in buf[0]:
                    ys = [x.get('y') for x in buf]
                    a['y'] = None if any(y is None for y in ys) else np.array(ys)
                out.append((m, a))
            buf.clear()
        for mm, a in hist:
            if mm == 'fit_partial' and (m.startswith('fit')):
                buf.append(a)
                if g.r.random() < .35:
                    flush()
            elif mm in ('score_partial', 'transform_partial') and m in ('score', 'transform'):
                buf.append(a)
                if g.r.random() < .5:
                    flush()
            else:
                flush()
                out.append((mm, a))
        flush()
        return out
    return h
