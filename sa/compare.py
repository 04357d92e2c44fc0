"""Simulation check: class in the repository vs. reference class."""
import ast
import math
import os
import random
import time

import numpy as np

from . import terms as tm
from .terms import T, NONE, TRUE, FALSE
from .machine import Machine, FamT, canon, famkey, _freek, Opaque
from .evalterm import Ctx, NotEvaluable, Err, U, Fam, Obj, _Unset, same
from .classmodel import ClassModel, sig_params
from .program import AnalysisError


class Result:
    def __init__(self, status, detail='', obligations=0, proved=0, where=None, witness=None, parts=None):
        self.status, self.detail = status, detail
        self.obligations, self.proved = obligations, proved
        self.where, self.witness = where, witness
        self.parts = parts or []


def nonfinite(v):
    if isinstance(v, (float, np.floating)):
        return not math.isfinite(v)
    if isinstance(v, np.ndarray):
        return v.dtype != object and v.size > 0 and not np.all(np.isfinite(v.astype(float)))
    if isinstance(v, (list, tuple)):
        return any(nonfinite(x) for x in v)
    return False


def raise_key(rs):
    out = []
    for exc, g, loops, loc in rs:
        if g is FALSE:
            continue
        m = {}
        for i, (k, n) in enumerate(loops):
            m[k] = tm.sym('$loop%d' % i, 'int')
        out.append((canon(tm.subst(g, m)).dig, tuple(canon(tm.subst(n, m)).dig if isinstance(n, T) else b'' for k, n in loops)))
    # or of the guards when no loops
    return tuple(sorted(out))


def raise_guard(rs):
    g0 = FALSE
    rest = []
    for exc, g, loops, loc in rs:
        if loops:
            rest.append((exc, g, loops, loc))
        else:
            g0 = tm.bor(g0, g)
    return canon(g0).dig, raise_key(rest)


def normal_form(A, B, methods, obs=None, extra=None):
    """[(name, equal)] componentwise over the closure of observed state"""
    parts = []
    ca, cb = A.closure(methods), B.closure(methods)
    if extra:
        ca |= set(extra)
        cb |= set(extra)
    parts.append(('constructor: rejected configurations', raise_guard(A.raises('__init__')) == raise_guard(B.raises('__init__'))))
    if ca != cb:
        parts.append(('state components %s' % sorted(ca ^ cb), False))
    for p in sorted(ca & cb):
        parts.append(('constructor: initial %s' % p, _eqpost(A, B, '__init__', p)))
    for m in methods:
        parts.append(('%s: returned value' % m, canon(_freek(A.ret(m))).dig == canon(_freek(B.ret(m))).dig))
        parts.append(('%s: raise conditions' % m, raise_guard(A.raises(m)) == raise_guard(B.raises(m))))
        for p in sorted(ca & cb):
            parts.append(('%s: next %s' % (m, p), _eqpost(A, B, m, p)))
    return parts, ca, cb


def _eqpost(A, B, m, p):
    try:
        x = A.post(m, p)
    except NotEvaluable as ex:
        x = ex
    try:
        y = B.post(m, p)
    except NotEvaluable as ex:
        y = ex
    if isinstance(x, Exception) or isinstance(y, Exception):
        return isinstance(x, Exception) and isinstance(y, Exception) and str(x) == str(y)
    return famkey(x) == famkey(y)


def constants(A, methods, paths, only=None):
    out = set()

    def scan(t):
        if isinstance(t, FamT):
            scan(t.n)
            scan(t.inner)
            return
        if not isinstance(t, T):
            return
        for x in tm.walk(t):
            if only:
                out.update(only(x))
            elif x.op == 'num':
                out.add(x.args[0])
                out.add(abs(x.args[0]))
            elif x.op == 'poly':
                for m, c in x.args[0]:
                    out.add(abs(c))
    for m in ['__init__'] + list(methods):
        if m != '__init__':
            scan(A.ret(m))
        for exc, g, loops, loc in A.raises(m):
            scan(g)
        for p in paths:
            try:
                scan(A.post(m, p))
            except NotEvaluable:
                pass
    return out


NANTESTS = {'isnan', 'isfinite', 'isinf', 'nan_to_num', 'nanmean', 'nanmedian', 'nanmax', 'nanmin', 'nansum', 'nanvar', 'nanstd'}


def nantests(A, methods, paths):
    """tests for missing or infinite values"""
    return constants(A, methods, paths, lambda x: [x.args[0]] if x.op == 'call' and x.args[0] in NANTESTS else [])


class Gen:
    """sampler of parameters and histories; `hot` holds distinguishing constants"""

    def __init__(self, seed, hot=()):
        self.r = random.Random(seed)
        self.hot = sorted(float(h) for h in hot)
        self.hot_big = [int(h) for h in self.hot if float(h).is_integer() and 1 < h <= 6000]
        self.hot_int = [int(h) for h in self.hot if float(h).is_integer() and 1 < h <= 60]
        # some histories have all their values on the scale of a distinguishing constant
        fine = [h for h in self.hot if 0 < abs(h) < .3]
        self.specials = None
        self.unit = random.Random(seed + '/unit').choice(fine) * random.Random(seed + '/mult').choice([.5, 1, 2, 4]) if fine and random.Random(seed + '/fine').random() < .3 else 1.0

    def num(self):
        if self.specials and self.specials.random() < .08:
            return self.specials.choice([math.nan, math.nan, math.inf, -math.inf])
        return self._num() * self.unit

    def missing(self, seed):
        self.specials = random.Random(str(seed) + '/missing')

    def _num(self):
        r = self.r
        z = r.random()
        if z < 0.12 and self.hot:
            h = r.choice(self.hot) * r.choice([1, 1, -1, 2])
            return h + r.choice([0, 0, 1, -1, 0.5, -0.5])
        if z < 0.45:
            return float(r.randint(-3, 3))
        if z < 0.6:
            return float(r.randint(0, 2))
        if z < 0.66:
            return float(r.choice([10.0, -20.0, 100.0, 1000.0, -1000.0]))
        return r.randint(-16, 16) / 4.0

    def pos(self):
        return abs(self.num()) + self.r.choice([0, 0.25, 1])

    def size(self, lo=1, hi=5):
        if self.hot_int and self.r.random() < 0.3:
            return max(lo, self.r.choice(self.hot_int) + self.r.choice([-1, 0, 0, 1]))
        return self.r.randint(lo, hi)

    def vec(self, d):
        z = self.r.random()
        if z < .05:
            return np.zeros(d)
        if z < .1:
            return np.full(d, self.num())
        return np.array([self.num() for _ in range(d)])

    def pick(self, xs):
        """a small integer option, sometimes around a distinguishing constant"""
        if self.hot_int and self.r.random() < .15:
            h = self.r.choice(self.hot_int)
            if h <= 30:
                return max(min(xs), h + self.r.choice([-1, 0, 0, 1]))
        return self.r.choice(xs)

    def label(self):
        return self.r.choice([0, 1])

    def bool(self):
        return self.r.random() < 0.5

    def steps(self, lo=1, hi=14):
        z = self.r.random()
        if z < 0.06:
            return 60
        if self.hot_int and z < 0.2:
            return min(80, 2 * max(self.hot_int) + 4)
        return self.r.randint(lo, hi)


def defaults_of(prog, cls):
    f = prog.find_method(cls, '__init__')
    out = {}
    if f is None:
        return out
    names, d, va, kwa = sig_params(f)
    for n, v in d.items():
        try:
            x = ast.literal_eval(v)
        except Exception:
            continue
        out[n] = x
    return out


def _threshold(x):
    """constants a quantity is compared with, and moduli of counters"""
    if x.op in ('ge0', 'gt0', 'eq0') and x.args[0].op == 'poly':
        return [abs(c) for m, c in x.args[0].args[0] if not m]
    if x.op in ('mod', 'mod_') and x.args[1].op == 'num':
        return [x.args[1].args[0]]
    if x.op in ('take', 'drop', 'lastn', 'subseq'):
        out = []
        for a in x.args[1:]:
            if isinstance(a, T) and a.op == 'num':
                out.append(abs(a.args[0]))
            elif isinstance(a, T) and a.op == 'poly':
                out += [abs(c) for m, c in a.args[0] if not m]
        return out
    return []


def shrinkable(A, B, methods, pa, pb):
    """large integer thresholds that only the implementation has, in groups of neighbours"""
    ca, cb = constants(A, methods, pa), constants(B, methods, pb)
    th = constants(A, methods, pa, _threshold)
    near = {h + k for h in th for k in (-2, -1, 0, 1, 2)}
    hs = sorted(h for h in (ca & near) - cb if h.denominator == 1 and 8 < h <= 10 ** 7)
    groups = []
    for h in hs:
        if groups and h - groups[-1][-1] <= 2:
            groups[-1].append(h)
        else:
            groups.append([h])
    return groups


def scaled(groups, r):
    """the same thresholds moved into the range short histories reach"""
    m = {}
    for g in groups:
        s = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        for h in g:
            m[h] = int(h - g[0]) + s
    return m


def separate(A, B, cfg, methods, pa, pb, seed=1, runs=120, budget=None):
    """A reachable history on which the two transition systems differ."""
    budget = (budget or BUDGET) * cfg.get('budget', 1)
    r = _separate(A, B, cfg, methods, pa, pb, seed, runs, budget)
    if r[0] == 'none':
        gs = shrinkable(A, B, methods, pa, pb)
        if gs:
            r2 = _separate(A, B, cfg, methods, pa, pb, seed, runs, budget / 2, gs)
            if r2[0] == 'diff':
                w = list(r2[1])
                w[2] = 'thresholds %s scaled to history length: %s' % ([[str(h) for h in g] for g in gs], w[2])
                return ('diff', tuple(w), r2[2])
    return r


def accepts(A, B, cfg, seed, runs=1500):
    """a configuration that one constructor's raise conditions reject and the other's do not"""
    hot = [h for h in constants(A, [], []) | constants(B, [], []) if abs(h) < 10 ** 6]
    ints = sorted({int(h) + d for h in hot if h.denominator == 1 for d in (-1, 0, 1)} | set(range(-2, 13)))
    reals = sorted({float(h) * k for h in hot for k in (.5, 1, 2)} | {0.0, 1.0, -1.0, .5, 1.5}) + [math.nan, math.inf, -math.inf]
    dA = defaults_of(A.M.prog, A.M.cls)
    n = 0
    for i in range(runs):
        g = Gen('%s/accept/%d' % (seed, i), [])
        p = dict(dA)
        p.update({k: v for k, v in cfg['params'](g).items() if k[0] != '$'})
        for k, v in list(p.items()):
            if g.r.random() < .5:
                continue
            if isinstance(v, int) and not isinstance(v, bool):
                p[k] = g.r.choice(ints)
            elif isinstance(v, float):
                p[k] = g.r.choice(reals)
        ctx = Ctx('%s/%d' % (seed, i))
        ctx.models = dict(cfg.get('models', {}))
        try:
            ctx.side = 'A'
            ea, _ = A.init(ctx, p, [])
            ctx.side = 'B'
            eb, _ = B.init(ctx, p, [])
        except NotEvaluable:
            continue
        n += 1
        if bool(ea) != bool(eb) and not ctx.taint:
            return ('diff', ('constructor', '__init__', _short(p), 'raises %s' % ea if ea else 'accepted', 'raises %s' % eb if eb else 'accepted'), n)
    return None


BUDGET = float(os.environ.get('VERIF_SEARCH_S', '20'))


def _separate(A, B, cfg, methods, pa, pb, seed, runs, budget, groups=None):
    hot = constants(A, methods, pa) ^ constants(B, methods, pb)
    hot = {h for h in hot if abs(h) < 10 ** 10}
    nan = nantests(A, methods, pa) - nantests(B, methods, pb)
    dA = defaults_of(A.M.prog, A.M.cls)
    undecided = None
    executed = 0
    t0 = time.process_time()
    i = -1
    while True:
        i += 1
        el = time.process_time() - t0
        if (i >= runs and (el > budget or i >= 25 * runs)) or (i >= 8 and el > 3 * budget):
            break
        g = Gen('%s/%d' % (seed, i), hot)
        shrink = scaled(groups, g.r) if groups else {}
        if groups:
            g = Gen('%s/%d' % (seed, i), {h for h in hot if h not in shrink} | set(shrink.values()))
        params = dict(cfg['params'](g))
        if nan and i % 3 == 2:
            g.missing(i)
        hist = list(cfg['history'](g, params))
        try:
            w = run_pair(A, B, cfg, params, hist, methods, pa, pb, dA, '%s/%d/0' % (seed, i), shrink, g.hot, nan)
        except NotEvaluable as ex:
            undecided = str(ex)
            if i > 12 and executed == 0:
                break
            continue
        executed += 1
        if w is None:
            continue
        if w[0] == 'taint':
            undecided = w[1]
            continue
        # the separation must not depend on the interpretation of externals
        try:
            w2 = run_pair(A, B, cfg, params, hist, methods, pa, pb, dA, '%s/%d/1' % (seed, i), shrink, g.hot, nan)
        except NotEvaluable:
            w2 = None
        if w2 is None or w2[0] == 'taint':
            continue
        return ('diff', w, executed)
    return ('none', undecided, executed)


def draws_differ(ctx):
    """why a difference may be due to an equivalent organisation of the random draws"""
    a, b = ctx.draws.get('A', {}), ctx.draws.get('B', {})
    if a == b or not b:
        return None
    if not a:
        # nothing is drawn where a draw is required; unless the drawing is hidden in an unknown call
        if ctx.ucalls.get('A', set()) - ctx.ucalls.get('B', set()):
            return 'random draws may be hidden in a call'
        return None
    if set(a) != set(b):
        return 'random draws are organised differently'
    for key in a:
        ta, tb = sorted(t for t, f in a[key]), sorted(t for t, f in b[key])
        if a[key] != b[key] and ta == tb:
            return 'random draws are shaped differently'
    return None


def has_ext(v):
    if isinstance(v, U):
        return True
    if isinstance(v, np.ndarray):
        return v.dtype == object and any(has_ext(x) for x in v.ravel())
    if isinstance(v, (list, tuple)):
        return any(has_ext(x) for x in v)
    return False


def run_pair(A, B, cfg, params, hist, methods, pa, pb, dA, seed, shrink=None, hot=(), nan=()):
    ctx = Ctx(seed)
    ctx.hot, ctx.nan = list(hot), bool(nan)
    ctx.shrink = shrink or {}
    ctx.models = dict(cfg.get('models', {}))
    pA = dict(dA)
    pA.update({k: v for k, v in params.items() if k[0] != '$'})
    ctx.side = 'A'
    ea, sa = A.init(ctx, pA, pa)
    ctx.side = 'B'
    eb, sb = B.init(ctx, pA, pb)
    if bool(ea) != bool(eb):
        if ctx.taint:
            return ('taint', ctx.taint[-1])
        return ('constructor', '__init__', _short(params), 'raises %s' % ea if ea else 'accepted', 'raises %s' % eb if eb else 'accepted')
    if ea:
        return None
    trace = []
    missing = any(nonfinite(v) for m, args in hist for v in args.values())
    for m, args in hist:
        if m not in methods:
            continue
        ctx.side = 'B'
        rb, nb = B.step(ctx, pA, sb, m, args, pb)
        if rb[0] == 'err':
            return None
        ctx.side = 'A'
        ra, na = A.step(ctx, pA, sa, m, args, pa)
        trace.append((m, args))
        bad = False
        if rb[0] == 'raise' or ra[0] == 'raise':
            bad = ra[0] != rb[0]
        elif nonfinite(rb[1]):
            if not cfg.get('nonfinite') and not missing:
                sa, sb = na, nb
                continue
            bad = ra[0] == 'err' or not same(ra[1], rb[1])
        else:
            bad = ra[0] == 'err' or not same(ra[1], rb[1])
            if bad and ra[0] == 'ret' and cfg.get('loose_ret') and cfg['loose_ret'](m, ra[1], rb[1]):
                bad = False
        if bad:
            d = draws_differ(ctx)
            if d:
                rel = (cfg.get('relation') or {}).get(m)
                if not (rel and ra[0] == 'ret' and not ctx.taint and not has_ext(ra[1]) and not rel(args, ra[1]) and rel(args, rb[1])):
                    return ('taint', d)
            if ctx.taint:
                return ('taint', ctx.taint[-1])
            return ('step', m, 'constructor(%s); %s' % (_short(params), '; '.join('%s(%s)' % (mm, _short(aa)) for mm, aa in trace[-12:])),
                    '%s %s' % (ra[0], _short(ra[1])), '%s %s' % (rb[0], _short(rb[1])))
        if rb[0] == 'raise':
            return None
        sa, sb = na, nb
    return None


def _short(v):
    if isinstance(v, dict):
        return ', '.join('%s=%s' % (k, _short(x)) for k, x in v.items())
    if isinstance(v, np.ndarray):
        return np.array2string(np.asarray(v), precision=6, separator=',', threshold=12).replace('\n', '')
    if isinstance(v, float):
        return '%.8g' % v
    s = repr(v)
    return s if len(s) < 160 else s[:157] + '...'


def models_of(prog, qual, sprog, squal, cfg):
    def presets(p):
        out = {}
        for prm, cname in (cfg.get('classes') or {}).items():
            q = find_class(p, cname)
            if q is None:
                raise AnalysisError('class %s not found' % cname)
            out[prm] = tm.mk('cls', p.classes[q].qual)
        for prm, v in (cfg.get('consts') or {}).items():
            out[prm] = TRUE if v is True else FALSE if v is False else NONE if v is None else tm.num(v) if isinstance(v, (int, float)) else tm.strc(v)
        return out
    MA = ClassModel(prog, qual, presets=presets(prog))
    MB = ClassModel(sprog, squal, presets=presets(sprog))
    return Machine(MA), Machine(MB)


def find_class(prog, name):
    """qualified name of the public class with this simple name"""
    qs = sorted(q for q, c in prog.classes.items() if q.split('.')[-1] == name and c.node.name == name and q.split('.')[0] in prog.roots)
    return qs[0] if qs else None


def unsupported(A, methods):
    """statements of the methods whose effect the interpretation does not carry"""
    evs = list(A.M.init_events)
    for m in methods:
        evs += A.M.run(m).events
    return sorted({'%s at %s' % (e.data.get('what') or 'in-place %s of a derived value' % e.data.get('how'), e.loc) for e in evs
                   if e.kind in ('unsupported', 'mutval') and e.guard is not tm.FALSE})


def check_class(prog, qual, sprog, squal, cfg, seed=1, runs=120):
    """compare impl class `qual` with reference `squal`"""
    for m in cfg['methods']:
        f = prog.find_method(prog.cls(qual), m)
        if f is None:
            return Result('violated', 'public method %s.%s no longer exists' % (qual, m), where=qual)
    A, B = models_of(prog, qual, sprog, squal, cfg)
    MA = A.M
    methods = [m for m in cfg['methods'] if m != '__init__']
    parts, pa, pb = normal_form(A, B, methods)
    n = len(parts)
    ok = sum(1 for _, e in parts if e)
    uns = unsupported(A, methods)
    if uns:
        return Result('undecided', 'construct not modelled: %s' % '; '.join(uns[:3]), n, min(ok, n - 1), parts=parts)
    if ok == n:
        return Result('proved', '', n, n, parts=parts)
    bad = [p for p, e in parts if not e]
    r = accepts(A, B, cfg, seed) if 'constructor: rejected configurations' in bad else None
    r = r or separate(A, B, cfg, methods, sorted(pa), sorted(pb), seed, runs)
    if r[0] == 'diff':
        w = r[1]
        f = prog.find_method(MA.cls, w[1])
        where = '%s:%s %s' % (f.module.path if hasattr(f, 'module') else '?', f.node.lineno, f.qual) if f else qual
        return Result('violated', 'differs in %s; separating history: %s: computed %s, required %s' % (bad[:4], w[2], w[3], w[4]), n, ok, where=where, witness=w, parts=parts)
    if r[2] == 0:
        return Result('undecided', 'not interpretable: %s (differs in %s)' % (r[1], bad[:4]), n, ok, parts=parts)
    return Result('agrees', 'no separation in %d histories (%s); forms differ in %s' % (r[2], r[1], bad[:4]), n, ok, parts=parts)
