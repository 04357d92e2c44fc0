"""Reference semantics of the tree, chain, hashing and autoencoder ensembles."""
import copy
import numpy as np
import numpy
from scipy.cluster.hierarchy import linkage, to_tree
from spec.projectors import StreamhashProjector


class KNNCAD:
    """conformal k-nearest-neighbour score over vectors of the last 19 values"""

    def __init__(self, probationary_period):
        self.buf = []
        self.training = []
        self.calibration = []
        self.scores = []
        self.record_count = 0
        self.pred = -1
        self.k = 27
        self.to_init = True
        self.probationaryPeriod = probationary_period

    def _ncm(self, item, own=False):
        d = []
        for x in self.training:
            diff = x - np.array(item)
            d.append(np.dot(np.dot(diff, self.sigma), diff.T))
        return np.sum(np.partition(d, self.k + own)[:self.k + own])

    def fit_partial(self, X, y=None):
        if self.to_init:
            self.dim = 19
            self.sigma = np.diag(np.ones(self.dim))
            self.to_init = False
        self.buf = (self.buf + [X[0]])[-self.dim:]
        self.record_count += 1
        if len(self.buf) < self.dim:
            return self
        item = self.buf[-self.dim:]
        if self.record_count < self.probationaryPeriod:
            self.training.append(item)
        else:
            phase = self.record_count % self.probationaryPeriod
            if phase == 0 or phase == int(self.probationaryPeriod / 2):
                try:
                    self.sigma = np.linalg.inv(np.dot(np.array(self.training).T, self.training))
                except np.linalg.linalg.LinAlgError:
                    print('Singular Matrix at record', self.record_count)
            if len(self.scores) == 0:
                self.scores = [self._ncm(v, True) for v in self.training]
            score = self._ncm(item)
            if self.record_count >= 2 * self.probationaryPeriod:
                self.training.pop(0)
                self.training.append(self.calibration.pop(0))
            self.scores.pop(0)
            self.scores.append(score)
            self.calibration.append(item)
        return self

    def score_partial(self, X):
        if len(self.buf) < self.dim or self.record_count < self.probationaryPeriod:
            return 0.0
        score = self._ncm(self.buf[-self.dim:])
        result = 1. * len(np.where(np.array(self.scores) < score)[0]) / len(self.scores)
        if self.pred > 0:
            self.pred -= 1
            return 0.5
        if result >= 0.9965:
            self.pred = int(self.probationaryPeriod / 5)
        return result


class RSHash:
    def __init__(self, feature_mins, feature_maxes, sampling_points=1000, decay=0.015, num_components=100, num_hash_fns=1):
        self.minimum = feature_mins
        self.maximum = feature_maxes
        self.m = num_components
        self.s = sampling_points
        self.dim = len(feature_mins)
        self.decay = decay
        self.effS = max(1000, 1.0 / (1 - np.power(2, -decay)))
        self.f = np.random.uniform(low=1.0 / np.sqrt(self.effS), high=1 - (1.0 / np.sqrt(self.effS)), size=self.m)
        self.cmsketches = [{} for _ in range(num_hash_fns)]
        self._sample_dims()
        self.alpha = [np.random.uniform(low=0, high=self.f[r], size=len(self.V[r])) for r in range(self.m)]
        self.index = 1 - self.s
        self.last_score = None

    def _sample_dims(self):
        common = np.log(self.effS) / np.log(np.max((2 * np.ones(self.f.size), list(1.0 / self.f)), axis=0))
        low = 1 + 0.5 * common
        high = common
        self.r = np.empty([self.m, ], dtype=int)
        self.V = []
        for i in range(self.m):
            if np.floor(low[i]) == np.floor(high[i]):
                self.r[i] = 1
            else:
                self.r[i] = min(np.random.randint(low=low[i], high=high[i]), self.dim)
            every = np.array(list(range(self.dim)), dtype=np.int32)
            usable = every[np.where(np.array(self.minimum) != np.array(self.maximum))[0]]
            if len(usable) > 0:
                v = np.random.choice(usable, size=min(self.r[i], len(usable)), replace=False)
            else:
                v = np.random.choice(every, size=min(self.r[i], len(every)), replace=False)
            self.V.append(v)

    def fit_partial(self, X, y=None):
        total = 0
        for r in range(self.m):
            Y = -1 * np.ones(len(self.V[r]))
            Y[range(len(self.V[r]))] = np.floor((X[np.array(self.V[r])] + np.array(self.alpha[r])) / float(self.f[r]))
            key = tuple(np.insert(Y, 0, r).astype(np.int32))
            c = []
            for w in range(len(self.cmsketches)):
                try:
                    value = self.cmsketches[w][key]
                except KeyError:
                    value = (self.index, 0)
                weight = value[1] * np.power(2, -self.decay * (self.index - value[0]))
                c.append(weight)
                self.cmsketches[w][key] = (self.index, weight + 1)
            total = total + np.log(1 + min(c))
        self.last_score = total / self.m
        self.index += 1
        return self

    def score_partial(self, X):
        return self.last_score


class HalfSpaceTrees:
    def __init__(self, feature_mins, feature_maxes, window_size=100, num_trees=25, max_depth=15, initial_window_X=None):
        self.window_size = window_size
        self.max_depth = max_depth
        self.num_trees = num_trees
        self.feature_maxes = feature_maxes
        self.feature_mins = feature_mins
        self.num_dimensions = len(feature_maxes)
        self.roots = [self._build_single_hs_tree(copy.deepcopy(feature_mins), copy.deepcopy(feature_maxes), 0) for _ in range(num_trees)]
        self.is_first_window = True
        self.step = 0
        if initial_window_X is not None:
            self.fit(initial_window_X)

    def fit(self, X, y=None):
        for x in X:
            self.fit_partial(x, None)
        return self

    def _build_single_hs_tree(self, mins, maxes, current_depth):
        if current_depth == self.max_depth:
            return self._Node(left=None, right=None, r_mass=0, l_mass=0, split_att=0, split_value=0.0, k=current_depth)
        q = np.random.randint(self.num_dimensions)
        p = (maxes[q] + mins[q]) / 2.0
        temp = maxes[q]
        maxes[q] = p
        left = self._build_single_hs_tree(copy.deepcopy(mins), copy.deepcopy(maxes), current_depth + 1)
        maxes[q] = temp
        mins[q] = p
        right = self._build_single_hs_tree(copy.deepcopy(mins), copy.deepcopy(maxes), current_depth + 1)
        return self._Node(left=left, right=right, r_mass=0, l_mass=0, split_att=q, split_value=p, k=current_depth)

    def _update_mass(self, x, node, ref_window):
        if ref_window:
            node.r_mass += 1
        node.l_mass += 1
        if node.k < self.max_depth:
            self._update_mass(x, node.right if x[node.split_att] > node.split_value else node.left, ref_window)

    def _update_model(self, node):
        if node is None:
            return
        self.is_first_window = False
        node.r_mass = node.l_mass
        node.l_mass = 0
        self._update_model(node.left)
        self._update_model(node.right)

    def fit_partial(self, X, y=None):
        self.step += 1
        for root in self.roots:
            self._update_mass(X, root, self.is_first_window)
        if self.step % self.window_size == 0:
            for root in self.roots:
                self._update_model(root)
        return self

    def _score_tree(self, X, node):
        if node is None:
            return 0.0
        nxt = node.right if X[node.split_att] > node.split_value else node.left
        return node.r_mass * 2 ** node.k + self._score_tree(X, nxt)

    def score_partial(self, X):
        s = 0.0
        for root in self.roots:
            s += self._score_tree(X, root)
        return -s

    class _Node:
        def __init__(self, left, right, r_mass, l_mass, split_att, split_value, k):
            self.left = left
            self.right = right
            self.r_mass = r_mass
            self.l_mass = l_mass
            self.split_att = split_att
            self.split_value = split_value
            self.k = k


class _Chain:
    """two-window half-space chain"""

    def __init__(self, deltamax, depth):
        k = len(deltamax)
        self.depth = depth
        self.fs = [np.random.randint(0, k) for d in range(depth)]
        self.cmsketches = [{} for i in range(depth)] * depth
        self.cmsketches_cur = [{} for i in range(depth)] * depth
        self.deltamax = deltamax
        self.rand_arr = np.random.rand(k)
        self.shift = self.rand_arr * deltamax
        self.is_first_window = True

    def fit(self, X):
        prebins = np.zeros(X.shape, dtype=np.float64)
        seen = np.zeros(len(self.deltamax), dtype=np.int32)
        for d in range(self.depth):
            f = self.fs[d]
            seen[f] += 1
            if seen[f] == 1:
                prebins[:, f] = (X[:, f] + self.shift[f]) / self.deltamax[f]
            else:
                prebins[:, f] = 2. * prebins[:, f] - self.shift[f] / self.deltamax[f]
            if self.is_first_window:
                sketch = self.cmsketches[d]
                self._count(prebins, sketch)
                self.cmsketches[d] = sketch
                self.cmsketches_cur[d] = sketch
            else:
                sketch = self.cmsketches_cur[d]
                self._count(prebins, sketch)
                self.cmsketches_cur[d] = sketch
        return self

    def _count(self, prebins, sketch):
        for row in prebins:
            cell = tuple(np.floor(row).astype(np.int32))
            if cell not in sketch:
                sketch[cell] = 0
            sketch[cell] += 1

    def bincount(self, X):
        scores = np.zeros((X.shape[0], self.depth))
        prebins = np.zeros(X.shape, dtype=np.float64)
        seen = np.zeros(len(self.deltamax), dtype=np.int32)
        for d in range(self.depth):
            f = self.fs[d]
            seen[f] += 1
            if seen[f] == 1:
                prebins[:, f] = (X[:, f] + self.shift[f]) / self.deltamax[f]
            else:
                prebins[:, f] = 2. * prebins[:, f] - self.shift[f] / self.deltamax[f]
            sketch = self.cmsketches[d]
            for i, row in enumerate(prebins):
                cell = tuple(np.floor(row).astype(np.int32))
                scores[i, d] = sketch[cell] if cell in sketch else 0.0
        return scores

    def score(self, X):
        scores = np.log2(1. + self.bincount(X)) + np.array([d for d in range(1, self.depth + 1)])
        return -np.min(scores, axis=1)

    def next_window(self):
        self.is_first_window = False
        self.cmsketches = self.cmsketches_cur
        self.cmsketches_cur = [{} for _ in range(self.depth)] * self.depth


class _HSChains:
    def __init__(self, deltamax, n_chains=100, depth=25):
        self.nchains = n_chains
        self.depth = depth
        self.chains = [_Chain(deltamax=deltamax, depth=depth) for _ in range(n_chains)]

    def score(self, X):
        scores = np.zeros(X.shape[0])
        for ch in self.chains:
            scores += ch.score(X)
        scores /= float(self.nchains)
        return scores

    def fit(self, X):
        for ch in self.chains:
            ch.fit(X)

    def next_window(self):
        for ch in self.chains:
            ch.next_window()

    def set_deltamax(self, deltamax):
        for ch in self.chains:
            ch.deltamax = deltamax
            ch.shift = ch.rand_arr * deltamax


class xStream:
    def __init__(self, num_components=100, n_chains=100, depth=25, window_size=25):
        self.streamhash = StreamhashProjector(num_components=num_components)
        deltamax = np.ones(num_components) * 0.5
        deltamax[np.abs(deltamax) <= 0.0001] = 1.0
        self.window_size = window_size
        self.hs_chains = _HSChains(deltamax=deltamax, n_chains=n_chains, depth=depth)
        self.step = 0
        self.cur_window = []
        self.ref_window = None

    def fit_partial(self, X, y=None):
        self.step += 1
        X = self.streamhash.fit_transform_partial(X).reshape(1, -1)
        self.cur_window.append(X)
        self.hs_chains.fit(X)
        if self.step % self.window_size == 0:
            self.ref_window = self.cur_window
            self.cur_window = []
            rows = np.concatenate(self.ref_window, axis=0)
            deltamax = (np.max(rows, axis=0) - np.min(rows, axis=0)) / 2.0
            deltamax[np.abs(deltamax) <= 0.0001] = 1.0
            self.hs_chains.set_deltamax(deltamax)
            self.hs_chains.next_window()
        return self

    def score_partial(self, X):
        return self.hs_chains.score(self.streamhash.fit_transform_partial(X).reshape(1, -1)).flatten()


class corClust:
    """incremental correlation statistics and the cut of their dendrogram"""

    def __init__(self, n):
        self.n = n
        self.c = np.zeros(n)
        self.c_r = np.zeros(n)
        self.c_rs = np.zeros(n)
        self.C = np.zeros((n, n))
        self.N = 0

    def update(self, x):
        self.N += 1
        self.c += x
        r = x - self.c / self.N
        self.c_r += r
        self.c_rs += r ** 2
        self.C += np.outer(r, r)

    def corrDist(self):
        s = np.sqrt(self.c_rs)
        S = np.outer(s, s)
        S[S == 0] = 1e-100
        D = 1 - self.C / S
        D[D < 0] = 0
        return D

    def cluster(self, maxClust):
        D = self.corrDist()
        Z = linkage(D[np.triu_indices(self.n, 1)])
        if maxClust < 1:
            maxClust = 1
        if maxClust > self.n:
            maxClust = self.n
        return self.__breakClust__(to_tree(Z), maxClust)

    def __breakClust__(self, dendro, maxClust):
        if dendro.count <= maxClust:
            return [dendro.pre_order()]
        return self.__breakClust__(dendro.get_left(), maxClust) + self.__breakClust__(dendro.get_right(), maxClust)


def sigmoid(x):
    return 1. / (1 + numpy.exp(-x))


class dA_params:
    def __init__(self, n_visible=5, n_hidden=3, lr=0.001, corruption_level=0.0, gracePeriod=10000, hiddenRatio=None):
        self.n_visible = n_visible
        self.n_hidden = n_hidden
        self.lr = lr
        self.corruption_level = corruption_level
        self.gracePeriod = gracePeriod
        self.hiddenRatio = hiddenRatio


class dA:
    """tied-weight denoising autoencoder on 0-1 normalised input"""

    def __init__(self, params):
        self.params = params
        if params.hiddenRatio is not None:
            params.n_hidden = int(numpy.ceil(params.n_visible * params.hiddenRatio))
        self.norm_max = numpy.ones((params.n_visible,)) * -numpy.inf
        self.norm_min = numpy.ones((params.n_visible,)) * numpy.inf
        self.n = 0
        self.rng = numpy.random.RandomState(1234)
        a = 1. / params.n_visible
        self.W = numpy.array(self.rng.uniform(low=-a, high=a, size=(params.n_visible, params.n_hidden)))
        self.hbias = numpy.zeros(params.n_hidden)
        self.vbias = numpy.zeros(params.n_visible)
        self.W_prime = self.W.T

    def train(self, x):
        self.n = self.n + 1
        self.norm_max[x > self.norm_max] = x[x > self.norm_max]
        self.norm_min[x < self.norm_min] = x[x < self.norm_min]
        x = (x - self.norm_min) / (self.norm_max - self.norm_min + 1e-16)
        if self.params.corruption_level > 0.0:
            tx = self._corrupt(x, self.params.corruption_level)
        else:
            tx = x
        y = sigmoid(numpy.dot(tx, self.W) + self.hbias)
        z = sigmoid(numpy.dot(y, self.W_prime) + self.vbias)
        e = x - z
        h = numpy.dot(e, self.W) * y * (1 - y)
        self.W += self.params.lr * (numpy.outer(tx.T, h) + numpy.outer(e.T, y))
        self.hbias += self.params.lr * numpy.mean(h, axis=0)
        self.vbias += self.params.lr * numpy.mean(e, axis=0)
        return numpy.sqrt(numpy.mean(e ** 2))

    def _corrupt(self, x, level):
        assert level < 1
        return self.rng.binomial(size=x.shape, n=1, p=1 - level) * x

    def execute(self, x):
        if self.n < self.params.gracePeriod:
            return 0.0
        x = (x - self.norm_min) / (self.norm_max - self.norm_min + 1e-16)
        y = sigmoid(numpy.dot(x, self.W) + self.hbias)
        z = sigmoid(numpy.dot(y, self.W_prime) + self.vbias)
        return numpy.sqrt(((x - z) ** 2).mean())


class KitNET:
    def __init__(self, n, max_autoencoder_size=10, FM_grace_period=None, AD_grace_period=10000, learning_rate=0.1,
                 hidden_ratio=0.75, feature_map=None):
        self.AD_grace_period = AD_grace_period
        self.FM_grace_period = AD_grace_period if FM_grace_period is None else FM_grace_period
        self.m = 1 if max_autoencoder_size <= 0 else max_autoencoder_size
        self.lr = learning_rate
        self.hr = hidden_ratio
        self.n = n
        self.n_trained = 0
        self.v = feature_map
        self.FM = corClust(n)
        self.ensembleLayer = []
        self.outputLayer = None
        if self.v is not None:
            self._create()

    def _create(self):
        for m in self.v:
            self.ensembleLayer.append(dA(dA_params(n_visible=len(m), n_hidden=0, lr=self.lr, corruption_level=0, gracePeriod=0, hiddenRatio=self.hr)))
        self.outputLayer = dA(dA_params(len(self.v), n_hidden=0, lr=self.lr, corruption_level=0, gracePeriod=0, hiddenRatio=self.hr))

    def process(self, x):
        if self.n_trained > self.FM_grace_period + self.AD_grace_period:
            return self.execute(x)
        if self.n_trained <= self.FM_grace_period and self.v is None:
            self.FM.update(x)
            if self.n_trained == self.FM_grace_period:
                self.v = self.FM.cluster(self.m)
                self._create()
        else:
            s = np.zeros(len(self.ensembleLayer))
            for a in range(len(self.ensembleLayer)):
                s[a] = self.ensembleLayer[a].train(x[self.v[a]])
            self.outputLayer.train(s)
        self.n_trained += 1
        return 0.0

    def execute(self, x):
        if self.v is None:
            raise RuntimeError()
        s = np.zeros(len(self.ensembleLayer))
        for a in range(len(self.ensembleLayer)):
            s[a] = self.ensembleLayer[a].execute(x[self.v[a]])
        return self.outputLayer.execute(s)


class KitNet:
    def __init__(self, max_size_ae=10, grace_feature_mapping=None, grace_anomaly_detector=50000, learning_rate=0.1, hidden_ratio=0.75):
        self.grace_feature_mapping = grace_feature_mapping
        self.hidden_ratio = hidden_ratio
        self.learning_rate = learning_rate
        self.max_size_ae = max_size_ae
        self.grace_anomaly_detector = grace_anomaly_detector
        self.to_init = True

    def fit_partial(self, X, y=None):
        if self.to_init:
            self.model = KitNET(X.shape[0], self.max_size_ae, self.grace_feature_mapping, self.grace_anomaly_detector,
                                self.learning_rate, self.hidden_ratio)
            self.to_init = False
        self.model.process(X)
        return self

    def score_partial(self, X):
        return 0.0 if self.model.v is None else self.model.execute(X)
