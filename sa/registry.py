"""Which reference class describes which class of the repository, and how its
parameters and histories are sampled when normal forms differ."""
import numpy as np
from .evalterm import Err, NotEvaluable, Obj


def _bag(g, p):
    """updates, removals of held values, reads"""
    bag, out = [], []
    for i in range(g.steps()):
        z = g.r.random()
        if z < .5 or not bag:
            x = g.num()
            bag.append(x)
            out.append(('update', {'num': x}))
        elif z < .75:
            x = bag.pop(g.r.randrange(len(bag)))
            out.append(('remove', {'num': x}))
        if bag and g.r.random() < 0.7:
            out.append(('get', {}))
        if g.r.random() < 0.1 and bag:
            out.append(('get', {}))
    if bag:
        out.append(('get', {}))
    return out


def _nums(g, p):
    out = []
    for i in range(g.steps()):
        out.append(('update', {'num': g.num()}))
        if g.r.random() < 0.8:
            out.append(('get', {}))
    return out


def _post(g, p):
    out = []
    for i in range(g.steps()):
        s = g.num()
        out.append(('fit_partial', {'score': s}))
        for _ in range(g.r.choice([0, 1, 1, 2])):
            out.append(('transform_partial', {'score': s if g.bool() else g.num()}))
    return out


def _pairs(g, p):
    out = []
    for i in range(g.steps()):
        out.append(('update', {'y_true': g.label(), 'y_pred': g.r.choice([0, 1, 0.5, 0.25, 0.75, g.num()])}))
        if g.r.random() < .5:
            out.append(('get', {}))
    out.append(('get', {}))
    return out


def _stream(lo=1, hi=14, dims=(1, 3), labels=False, score_first=False, vec=None, after=1, baddim=False):
    def h(g, p):
        d = p.get('$d') or g.r.randint(*dims)
        out = []
        if score_first and g.r.random() < .3:
            out.append(('score_partial', {'X': (vec or (lambda g, d, p: g.vec(d)))(g, d, p)}))
        pool = []
        lab = g.r.choice([0, 1, 2]) if labels else 0
        again = .85 if g.r.random() < .25 else .2
        for i in range(g.steps(lo, hi)):
            x = (vec or (lambda g, d, p: g.vec(d)))(g, d, p)
            if pool and g.r.random() < again:
                x = g.r.choice(pool)
                if again > .5 and vec is None and g.r.random() < .3:
                    x = x + g.r.choice([.25, -.25, .125]) * np.eye(d)[g.r.randrange(d)]
            if len(pool) < 40:
                pool.append(x)
            y = None if lab == 0 else (g.label() if lab == 1 else g.r.choice([None, 0, 1]))
            out.append(('fit_partial', {'X': x, 'y': y}))
            if i + 1 >= after:
                for _ in range(g.r.choice([0, 1, 1, 2])):
                    out.append(('score_partial', {'X': x if g.bool() else (vec or (lambda g, d, p: g.vec(d)))(g, d, p)}))
        if baddim and g.r.random() < .15:
            out.insert(g.r.randint(0, len(out)), (g.r.choice(['fit_partial', 'fit_partial', 'score_partial']), {'X': g.vec(g.r.choice([d + 1, d + 2]))}))
            if out[-1][0] == 'fit_partial':
                out[-1][1].setdefault('y', None)
            for m, a in out:
                if m == 'fit_partial':
                    a.setdefault('y', None)
        return out
    return h


def _tstream(lo=1, hi=10, dims=(1, 4)):
    def h(g, p):
        d = p.get('$d') or g.r.randint(*dims)
        out = []
        for i in range(g.steps(lo, hi)):
            x = g.vec(d)
            out.append(('fit_partial', {'X': x}))
            for _ in range(g.r.choice([0, 1, 1, 2])):
                out.append(('transform_partial', {'X': x if g.bool() else g.vec(d)}))
        return out
    return h


def _ens(g, p):
    out = []
    for i in range(g.r.randint(1, 3)):
        s = np.array([[g.num() for _ in range(p.get('$m', 4))] for _ in range(g.r.randint(1, 3))])
        out.append(('fit_partial', {'scores': s}))
        out.append(('transform_partial', {'scores': s}))
    return out


def _none(g):
    return {}


def _win(g):
    return {'window_size': g.size(1, 5)}


C = {}


def add(name, methods, params=_none, history=None, **kw):
    C[name] = dict(name=name, cls=kw.pop('cls', name), methods=methods, params=params, history=history or (lambda g, p: []), **kw)


STAT = ['CountMeter', 'SumMeter', 'SumSquaresMeter', 'AverageMeter', 'VarianceMeter', 'MaxMeter', 'MinMeter', 'MedianMeter']
for _n in STAT:
    add(_n, ['update', 'remove', 'get'], history=_bag)
    add('Abs' + _n, ['update', 'remove', 'get'], cls='AbsStatistic', history=_bag, classes={'statistic_cls': _n})
    add('Running' + _n, ['update', 'get'], cls='RunningStatistic', params=_win, history=_nums, classes={'statistic_cls': _n})
add('RunningAny', ['update', 'get'], cls='RunningStatistic', params=lambda g: dict(_win(g), statistic_cls='S', kwargs={'a': 1}), history=_nums)


def _whist(g, p):
    out = []
    for i in range(g.steps()):
        out.append(('update', {'num': g.num()}))
        if g.bool():
            out.append(('get', {}))
    return out + [('get', {})]


add('Window', ['update', 'get'], params=_win, history=_whist)
add('UnlimitedWindow', ['update', 'get'], history=_whist)

for _n in ['AveragePostprocessor', 'MaxPostprocessor', 'MedianPostprocessor', 'ZScorePostprocessor']:
    add(_n, ['fit_partial', 'transform_partial'], history=_post)
    add('Running' + _n, ['fit_partial', 'transform_partial'], params=_win, history=_post)
for _b in (True, False):
    add('ConformalProbabilityCalibrator/%s' % _b, ['fit_partial', 'transform_partial'], cls='ConformalProbabilityCalibrator', consts={'windowed': _b},
        params=lambda g, b=_b: dict(windowed=b, window_size=g.size(1, 5)), history=_post)
    add('GaussianTailProbabilityCalibrator/%s' % _b, ['fit_partial', 'transform_partial'], cls='GaussianTailProbabilityCalibrator', consts={'running_statistics': _b},
        params=lambda g, b=_b: dict(running_statistics=b, window_size=g.size(1, 5)), history=_post)
add('ConformalProbabilityCalibrator', ['fit_partial', 'transform_partial'])
add('GaussianTailProbabilityCalibrator', ['fit_partial', 'transform_partial'])


def _ensp(g):
    return {'$m': 4, 'estimator_weights': None if g.bool() else [0.1, 0.2, 0.3, 0.4]}


add('AverageScoreEnsembler', ['fit_partial', 'transform_partial'], params=_ensp, history=_ens)
add('MaximumScoreEnsembler', ['fit_partial', 'transform_partial'], params=lambda g: {'$m': 4}, history=_ens)
add('MedianScoreEnsembler', ['fit_partial', 'transform_partial'], params=lambda g: {'$m': 4}, history=_ens)
for _n in ['AverageOfMaximumScoreEnsembler', 'MaximumOfAverageScoreEnsembler']:
    add(_n, ['fit_partial', 'transform_partial'],
        params=lambda g: {'$m': 4, 'n_buckets': g.pick([2, 3, 5]), 'method': g.r.choice(['static', 'dynamic']), 'bootstrap_estimators': g.bool()}, history=_ens)

for _n in ['IdentityScaler', 'InstanceStandardScaler']:
    add(_n, ['fit_partial', 'transform_partial'], history=_tstream())
add('InstanceUnitNormScaler', ['fit_partial', 'transform_partial'], params=lambda g: {'pow': g.pick([1, 2, 2, 3])}, history=_tstream())
add('SeasonalTrendDecomposer', ['fit_partial', 'transform_partial', 'fit_transform_partial'],
    params=lambda g: {'season_length': g.pick([1, 2, 3, 4]), 'trend_window': g.r.choice([None, 1, 2, 3, 5]), '$d': 1}, history=_tstream(2, 16))
add('ModifiedSTLResidualTransformer', ['fit_partial', 'transform_partial'],
    params=lambda g: {'period': g.pick([2, 3, 4]), 'window_size': g.r.choice([None, 6, 8, 9]), 'robust': g.bool(), '$d': 1, 'stl_kwargs': {}}, history=_tstream(2, 20))

add('NullModel', ['fit_partial', 'score_partial'], history=_stream())
add('RandomModel', ['fit_partial', 'score_partial'], history=_stream(), relation={'score_partial': lambda args, v: 0 <= float(np.asarray(v).reshape(-1)[0]) < 1})


def _perfect(g, p):
    out = []
    n = 0
    for i in range(g.steps()):
        out.append(('fit_partial', {'X': g.vec(2), 'y': g.r.choice([0, 1, 0, 1, 2, -1, 0.5, g.num()]) if g.r.random() < .95 else None}))
        if out[-1][1]['y'] is not None:
            n += 1
        while n and g.r.random() < .6:
            out.append(('score_partial', {'X': g.vec(2)}))
            n -= 1
    return out


add('PerfectModel', ['fit_partial', 'score_partial'], history=_perfect)
add('ExactStorm', ['fit_partial', 'score_partial'], params=lambda g: {'window_size': g.size(1, 5), 'max_radius': g.r.choice([0.1, 0.5, 1.0, 2.0, 5.0])}, history=_stream(score_first=True))


def _loop(g):
    d = g.r.randint(1, 3)
    return {'$d': d, 'initial_X': np.array([[g.num() for _ in range(d)] for _ in range(g.r.randint(1, 4))]), 'num_neighbors': g.size(1, 12), 'extent': g.pick([1, 2, 3])}


add('LocalOutlierProbability', ['fit_partial', 'score_partial'], params=_loop, history=_stream())
add('MedianAbsoluteDeviation', ['fit_partial', 'score_partial'], params=lambda g: {'absolute': g.bool(), 'b': g.r.choice([1.4826, 1.0, 2.0])}, history=_stream(dims=(1, 1), score_first=True, baddim=True))
add('StandardAbsoluteDeviation', ['fit_partial', 'score_partial'],
    params=lambda g: {'absolute': g.bool(), 'substracted_statistic': g.r.choice(['mean', 'median', None, 'mean', 'mode'])}, history=_stream(dims=(1, 1), score_first=True, baddim=True))
for _s in ('mean', 'median'):
    add('StandardAbsoluteDeviation/' + _s, ['fit_partial', 'score_partial'], cls='StandardAbsoluteDeviation', consts={'substracted_statistic': _s},
        params=lambda g, s=_s: {'absolute': g.bool(), 'substracted_statistic': s}, history=_stream(dims=(1, 1), score_first=True, baddim=True))
add('RelativeEntropy', ['fit_partial', 'score_partial'],
    params=lambda g: {'min_val': -4.0, 'max_val': 4.0, 'num_bins': g.pick([2, 3, 5]), 'window_size': g.size(1, 5)}, history=_stream(2, 20, dims=(1, 1)))
add('LODA', ['fit_partial', 'score_partial'], params=lambda g: {'num_bins': g.pick([2, 3, 4, 5, 6]), 'num_random_cuts': g.pick([1, 2, 4])}, history=_stream(1, 8, dims=(1, 4)))
for _n in ['SeasonalESD', 'SeasonalHybridESD']:
    add(_n, ['fit_partial', 'score_partial'],
        params=lambda g: {'period': g.pick([2, 3]), 'window_size': g.pick([6, 8]), 'max_anomalies': g.pick([1, 2]), 'alpha': 0.05, 'robust': g.bool(), '$d': 1, 'stl_kwargs': {}},
        history=_stream(2, 14, dims=(1, 1)))
add('RobustRandomCutForest', ['fit_partial', 'score_partial'],
    params=lambda g: {'num_trees': g.pick([1, 2, 3]), 'shingle_size': g.pick([1, 4]), 'tree_size': g.size(1, 4)}, history=_stream(1, 12))


def _cls(g):
    return {'model_cls': 'ModelCls', 'kwargs': {}}


def _onefit(g):
    d, n = g.r.randint(1, 3), g.r.randint(1, 4)
    y = g.r.choice([None, [g.label() for _ in range(n)], [g.label() for _ in range(n)]])
    return dict(_cls(g), **{'$d': d, 'initial_X': np.array([[g.num() for _ in range(d)] for _ in range(n)]), 'initial_y': y})


add('OneFitModel', ['fit_partial', 'score_partial'], params=_onefit, history=_stream())


def _rw(g):
    d = g.r.randint(1, 2)
    p = dict(_cls(g), window_size=g.size(1, 5), sliding_size=g.size(1, 4))
    p['$d'] = d
    k = g.r.choice([0, 0, 1, 2, 3])
    p['initial_window_X'] = np.array([[g.num() for _ in range(d)] for _ in range(k)]) if k else None
    p['initial_window_y'] = None
    if k and g.r.random() < .4:
        p['initial_window_y'] = np.array([g.label() for _ in range(k)])
    return p


add('ReferenceWindowModel', ['fit_partial', 'score_partial'], params=_rw, history=_stream(labels=True))


def _ifa(g):
    p = _rw(g)
    return {k: v for k, v in p.items() if k in ('window_size', 'initial_window_X', '$d', 'kwargs')}


add('IForestASD', ['fit_partial', 'score_partial'], params=_ifa, history=_stream())
add('KNNCAD', ['fit_partial', 'score_partial'], params=lambda g: {'probationary_period': g.pick([30, 48, 49, 50, 51, 60]), '$d': 1}, history=_stream(60, 170, dims=(1, 1), after=20), budget=4)


def _mm(g, p=None):
    d = g.r.randint(1, 3)
    lo = [g.r.choice([-4.0, -1.0, 0.0]) for _ in range(d)]
    hi = [a + g.r.choice([1.0, 2.0, 8.0]) for a in lo]
    return {'$d': d, 'feature_mins': np.array(lo), 'feature_maxes': np.array(hi)}


def _inrange(g, d, p):
    return np.array([a + (b - a) * g.r.randint(0, 8) / 8.0 for a, b in zip(p['feature_mins'], p['feature_maxes'])])


add('RSHash', ['fit_partial', 'score_partial'],
    params=lambda g: dict(_mm(g), sampling_points=g.pick([1000, 20, 50]), decay=g.r.choice([0.015, 0.1, 0.3]), num_components=g.pick([1, 2, 3]), num_hash_fns=g.pick([1, 2])),
    history=_stream(1, 8, vec=_inrange))
for _d in (1,):
    add('RSHash/%d' % _d, ['fit_partial', 'score_partial'], cls='RSHash', consts={'num_hash_fns': _d},
        params=lambda g, d=_d: dict(_mm(g), sampling_points=g.pick([1000, 20, 50]), decay=g.r.choice([0.015, 0.1, 0.3]), num_components=g.pick([1, 2, 3]), num_hash_fns=d),
        history=_stream(1, 8, vec=_inrange))
add('HalfSpaceTrees', ['fit_partial', 'score_partial'],
    params=lambda g: dict(_mm(g), window_size=g.size(1, 5), num_trees=g.pick([1, 2]), max_depth=g.pick([1, 2, 3]), initial_window_X=None),
    history=_stream(1, 14, vec=_inrange))
for _d in (1, 2, 3):
    add('HalfSpaceTrees/%d' % _d, ['fit_partial', 'score_partial'], cls='HalfSpaceTrees', consts={'max_depth': _d},
        params=lambda g, d=_d: dict(_mm(g), window_size=g.size(1, 5), num_trees=g.pick([1, 2]), max_depth=d, initial_window_X=None),
        history=_stream(1, 14, vec=_inrange))
add('_Chain', ['fit', 'bincount', 'score', 'next_window'])
add('_HSChains', ['fit', 'score', 'next_window', 'set_deltamax'])
add('xStream', ['fit_partial', 'score_partial'],
    params=lambda g: {'num_components': g.pick([2, 3]), 'n_chains': g.pick([1, 2]), 'depth': g.pick([1, 2, 3]), 'window_size': g.r.choice([1, 2, 3, 4, 12, 20])},
    history=_stream(1, 14, dims=(1, 3), after=5), budget=3)
add('corClust', ['update', 'cluster'])
add('dA', ['train', 'execute'])
add('KitNET', ['process', 'execute'])


def _node(t):
    o = Obj('tree', {'count': int(t.count), 'id': int(t.id), 'dist': float(t.dist)})
    o.fields['$t'] = t
    return o


def _linkage(E, a, k):
    from scipy.cluster.hierarchy import linkage
    try:
        d = np.asarray(a[0], dtype=float)
        return linkage(np.where((d < 0) & (d > -1e-9), 0.0, d), *a[1:], **k)     # rounding of a zero distance
    except (ValueError, TypeError) as ex:
        raise Err('linkage: %s' % ex)


def _to_tree(E, a, k):
    from scipy.cluster.hierarchy import to_tree
    if k or len(a) != 1:
        raise NotEvaluable('to_tree form')
    try:
        return _node(to_tree(np.asarray(a[0], dtype=float)))
    except (ValueError, TypeError) as ex:
        raise Err('to_tree: %s' % ex)


def _child(name):
    def m(E, v, a, k):
        if not (isinstance(v, Obj) and v.cls == 'tree') or a or k:
            raise NotEvaluable('tree method')
        t = v.fields['$t']
        if name == 'pre_order':
            return [int(i) for i in t.pre_order()]
        if name == 'is_leaf':
            return bool(t.is_leaf())
        if name == 'get_count':
            return int(t.count)
        t = getattr(t, name)()
        return None if t is None else _node(t)
    return m


TREE_MODELS = {'scipy.cluster.hierarchy.linkage': _linkage, 'scipy.cluster.hierarchy.to_tree': _to_tree}
TREE_MODELS.update({('mcall', None, n): _child(n) for n in ('get_left', 'get_right', 'pre_order', 'is_leaf', 'get_count')})

add('KitNet', ['fit_partial', 'score_partial'],
    params=lambda g: {'max_size_ae': g.pick([1, 2, 3]), 'grace_feature_mapping': g.pick([1, 2, 3]), 'grace_anomaly_detector': g.pick([1, 2, 3]), 'learning_rate': 0.1, 'hidden_ratio': 0.75},
    history=_stream(1, 9, dims=(2, 3)), models=TREE_MODELS)

for _n in ['PrecisionMetric', 'RecallMetric', 'AUROCMetric', 'AUPRMetric']:
    add(_n, ['update', 'get'], history=_pairs)
add('WindowedMetric', ['update', 'get'],
    params=lambda g: {'metric_cls': 'Metric', 'window_size': g.size(1, 5), 'ignore_nonempty_last': g.bool(), 'kwargs': g.r.choice([{}, {'a': 1}])}, history=_pairs)
add('StreamhashProjector', ['fit_partial', 'transform_partial', 'fit_transform_partial'],
    params=lambda g: {'num_components': g.pick([1, 2, 4]), 'density': g.r.choice([1 / 3.0, 0.5, 1.0])}, history=_tstream(1, 4))
for _n in ['GaussianRandomProjector', 'SparseRandomProjector']:
    add(_n, ['fit_partial', 'transform_partial'],
        params=lambda g, n=_n: dict({'num_components': g.r.choice([2, 3, 'auto']), 'eps': 0.1}, **({'density': g.r.choice(['auto', 0.5])} if n[0] == 'S' else {})), history=_tstream(1, 5, dims=(1, 5)))


def _batch(fit, score, extra, arg='X', labels=False, dims=2):
    def h(g, p):
        out = []
        for i in range(g.r.randint(1, 4)):
            n = g.r.randint(0, 4)
            A = np.array([[g.num() for _ in range(dims)] for _ in range(n)]).reshape(n, dims) if dims else np.array([g.num() for _ in range(n)])
            if n > 1 and g.r.random() < .4:
                A[g.r.randint(1, n - 1)] = A[g.r.randint(0, n - 1)]
            if n > 1 and g.r.random() < .1:
                A[:] = A[0]
            m = g.r.choice([fit, score] + extra)
            a = {arg: A}
            if labels and m != score:
                k = n if g.r.random() < .85 else g.r.choice([0, max(n - 1, 0), n + 1])
                a['y'] = g.r.choice([None, np.array([g.label() for _ in range(k)])])
            out.append((m, a))
        return out
    return h


for _j in ['', 'Joint']:
    add(_j + 'ModelProbe', ['fit', 'score', 'fit_score', 'fit_score_partial', 'fit_partial', 'score_partial'], history=_batch('fit', 'score', ['fit_score'], labels=True))
    add(_j + 'TransformerProbe', ['fit', 'transform', 'fit_transform', 'fit_transform_partial', 'fit_partial', 'transform_partial'],
        params=lambda g: {'output_dims': g.r.choice([-1, 2, 2])}, history=_batch('fit', 'transform', ['fit_transform']))
    add(_j + 'PostprocessorProbe', ['fit', 'transform', 'fit_transform', 'fit_transform_partial', 'fit_partial', 'transform_partial'],
        history=_batch('fit', 'transform', ['fit_transform'], arg='scores', dims=0))


def _rows(v):
    return sorted(repr([np.asarray(y, dtype=float).tolist() for y in x] if isinstance(x, tuple) else np.asarray(x, dtype=float).tolist()) for x in v)


def _permuted(args, v):
    """every row once, each with its own label"""
    X, y = args['X'], args.get('y')
    try:
        return _rows(list(v)) == _rows([x for x in X] if y is None else list(zip(X, y)))
    except (TypeError, ValueError):
        return True


def _strm(g, p):
    out = []
    if g.hot_big and g.r.random() < .25:
        n = g.r.choice(g.hot_big) + g.r.choice([0, 1, 2])
        X, y = np.arange(2.0 * n).reshape(n, 2), np.array([g.label() for _ in range(n)])
        return [('plain', {'X': X}), ('shuffled_plain', {'X': X}), ('labelled', {'X': X, 'y': y}), ('shuffled', {'X': X, 'y': y})]
    for m in ['plain', 'default', 'labelled', 'shuffled', 'shuffled_plain', 'iterate', 'iterate_labelled']:
        n = g.r.randint(0, 4)
        a = {'X': np.array([[g.num(), g.num()] for _ in range(n)]).reshape(n, 2)}
        if 'labelled' in m or m == 'shuffled':
            a['y'] = np.array([g.label() for _ in range(n if g.r.random() < .8 else n + 1)])
        out.append((m, a))
    g.r.shuffle(out)
    return out


add('ArrayStreamerProbe', ['plain', 'default', 'labelled', 'shuffled', 'shuffled_plain', 'iterate', 'iterate_labelled'], history=_strm, relation={'shuffled': _permuted, 'shuffled_plain': _permuted})
add('PandasStreamerProbe', ['plain', 'default', 'labelled', 'shuffled', 'shuffled_plain'], history=_strm, relation={'shuffled': _permuted, 'shuffled_plain': _permuted})
add('MinMaxProbe', ['array', 'scalar'], history=lambda g, p: [('array', {'X': np.array([[g.num(), g.num()] for _ in range(3)])}), ('scalar', {'x': np.array([g.num() for _ in range(3)])})])


def _table(E, path, name, mat):
    """the content of a data file: a function of its path"""
    def make(r):
        n = r.randint(1, 4)
        a = np.array([[float(r.randint(-9, 9)) for _ in range(4)] for _ in range(n)])
        if mat:
            return {'X': a[:, :3], 'y': a[:, 3:]}
        return a
    return E.ctx.usample(name, (path,), make)


_TXT = [('dtype', None), ('comments', '#'), ('delimiter', None), ('converters', None), ('skiprows', 0), ('usecols', None), ('unpack', False), ('ndmin', 0), ('encoding', None), ('max_rows', None)]


def _loadtxt(E, a, k):
    """the content depends on the path and on the options that differ from their defaults"""
    o = dict(zip([n for n, _ in _TXT], a[1:]))
    o.update(k)
    o = {n: v for n, v in o.items() if n not in dict(_TXT) or not (v is dict(_TXT)[n] or isinstance(v, (str, int)) and v == dict(_TXT)[n])}
    if o.pop('delimiter', None) == ',' and set(o) <= {'comments', 'skiprows', 'usecols', 'max_rows'}:
        return _table(E, a[0], 'txt' + repr(sorted(o.items())) if o else 'txt', False)
    return E.ctx.ufun('call:numpy.loadtxt', tuple(a) + tuple(sorted(k.items())))


DATA_MODELS = {'numpy.loadtxt': _loadtxt,
               'scipy.io.loadmat': lambda E, a, k: _table(E, a[0], 'mat', True)}


def _seedh(g, p):
    return [('draws', {'seed': g.r.choice([0, 1, 2, 3, 42, 10 ** 6 + 1, g.r.randint(0, 10 ** 5)])}) for _ in range(3)]


add('SeedProbe', ['draws'], history=_seedh)
add('DataProbe', ['get_data', 'iterator', 'shuffled', 'default_iterator'],
    history=lambda g, p: [(m, dict({'data_file': g.r.choice(['a.mat', 'b.txt'])}, **({'seed': g.r.choice([None, 0, 1, 2])} if m == 'shuffled' else {}))) for m in ['get_data', 'iterator', 'shuffled', 'shuffled', 'default_iterator']], models=DATA_MODELS)
