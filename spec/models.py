"""Reference semantics of the models."""
import copy
import math
import numpy as np
import scipy
from scipy import stats
from scipy.stats import t
from spec.statistics import MedianMeter, AverageMeter, VarianceMeter
from spec.windows import Window
from spec.transforms import ModifiedSTLResidualTransformer


class NullModel:
    def fit_partial(self, X, y=None):
        return self

    def score_partial(self, X):
        return 0.5


class RandomModel:
    def fit_partial(self, X, y=None):
        return self

    def score_partial(self, X):
        return np.random.uniform()


class PerfectModel:
    """labels leave in the order in which they came"""

    def __init__(self):
        self.labels = []

    def fit_partial(self, X, y):
        if y is None:
            raise ValueError()
        self.labels.append(y)
        return self

    def score_partial(self, X):
        y = self.labels[0]
        self.labels = self.labels[1:]
        return y


class ExactStorm:
    """fraction of the window (without the newest instance) within the radius"""

    def __init__(self, window_size=10000, max_radius=0.1):
        self.max_radius = max_radius
        self.window = Window(window_size)

    def fit_partial(self, X, y=None):
        self.window.update(X)
        return self

    def score_partial(self, X):
        w = self.window.get()[:-1]
        if len(w) == 0:
            return 0.0
        return np.mean(scipy.spatial.distance.cdist(w, [X]) < self.max_radius)


class LocalOutlierProbability:
    def __init__(self, initial_X, num_neighbors=10, extent=3):
        from PyNomaly import loop
        self.model = loop.LocalOutlierProbability(initial_X, extent=extent, n_neighbors=num_neighbors).fit()

    def fit_partial(self, X, y=None):
        return self

    def score_partial(self, X):
        return self.model.stream(X)


class MedianAbsoluteDeviation:
    def __init__(self, absolute=True, b=1.4826):
        self.b = b
        self.absolute = absolute
        self.median_meter = MedianMeter()
        self.mad_meter = MedianMeter()

    def fit_partial(self, X, y=None):
        assert len(X) == 1
        self.median_meter.update(X)
        self.mad_meter.update(abs(X - self.median_meter.get()))
        return self

    def score_partial(self, X):
        score = (X - self.median_meter.get()) / (self.b * self.mad_meter.get() + 1e-10)
        return abs(score) if self.absolute else score


class StandardAbsoluteDeviation:
    def __init__(self, substracted_statistic="mean", absolute=True):
        if substracted_statistic != "mean" and substracted_statistic != "median":
            raise ValueError()
        self.absolute = absolute
        self.variance_meter = VarianceMeter()
        self.sub_meter = MedianMeter() if substracted_statistic == "median" else AverageMeter()

    def fit_partial(self, X, y=None):
        assert len(X) == 1
        self.variance_meter.update(X)
        self.sub_meter.update(X)
        return self

    def score_partial(self, X):
        score = (X - self.sub_meter.get()) / (self.variance_meter.get() ** 0.5 + 1e-10)
        return abs(score) if self.absolute else score


class RelativeEntropy:
    """index of the agreeing hypothesis with the smallest relative entropy, -1 if none agrees"""

    def __init__(self, min_val, max_val, num_bins=5, window_size=52):
        self.min_val, self.max_val = min_val, max_val
        self.util = []
        self.N_bins = num_bins
        self.W = window_size
        self.T = stats.chi2.isf(0.01, num_bins - 1)
        self.m = 0
        self.stepSize = (max_val - min_val) / num_bins
        self.P = []
        self.P_hat = None

    def fit_partial(self, X, y=None):
        self.util = (self.util + [X])[-self.W:]
        if len(self.util) >= self.W:
            bins = [math.ceil((np.asarray(c).item() - self.min_val) / self.stepSize) for c in self.util[-self.W:]]
            self.P_hat = np.histogram(bins, bins=self.N_bins, range=(0, self.N_bins), density=True)[0]
            if self.m == 0:
                self.P.append(self.P_hat)
                self.m = 1
        return self

    def score_partial(self, X):
        if not (len(self.util) >= self.W and self.m > 0 and self.P_hat is not None):
            return 0.0
        index = -1
        best = float("inf")
        for i in range(self.m):
            e = 2 * self.W * stats.entropy(self.P_hat, self.P[i])
            if e < self.T and e < best:
                best = e
                index = i
        return index


class LODA:
    def __init__(self, num_bins=10, num_random_cuts=100):
        self.to_init = True
        self.n_bins = num_bins
        self.n_random_cuts = num_random_cuts

    def fit_partial(self, X, y=None):
        if self.to_init:
            self.num_features = X.shape[0]
            self.weights = np.ones(self.n_random_cuts, dtype=np.float64) / self.n_random_cuts
            self.projections_ = np.random.randn(self.n_random_cuts, self.num_features)
            self.histograms_ = np.zeros((self.n_random_cuts, self.n_bins))
            self.limits_ = np.zeros((self.n_random_cuts, self.n_bins + 1))
            self.n_zero_components = self.num_features - np.int32(np.sqrt(self.num_features))
            self.to_init = False
        X = X.reshape(1, -1)
        for i in range(self.n_random_cuts):
            zeroed = np.random.permutation(self.num_features)[:self.n_zero_components]
            self.projections_[i, zeroed] = 0.
            p = self.projections_[i, :].dot(X.T)
            self.histograms_[i, :], self.limits_[i, :] = np.histogram(p, bins=self.n_bins, density=False)
            self.histograms_[i, :] += 1e-12
            self.histograms_[i, :] /= np.sum(self.histograms_[i, :])
        return self

    def score_partial(self, X):
        X = X.reshape(1, -1)
        pred_scores = np.zeros([X.shape[0], 1])
        for i in range(self.n_random_cuts):
            p = self.projections_[i, :].dot(X.T)
            inds = np.searchsorted(self.limits_[i, :self.n_bins - 1], p, side='left')
            pred_scores[:, 0] += -self.weights[i] * np.log(self.histograms_[i, inds])
        pred_scores /= self.n_random_cuts
        return pred_scores.ravel()


class SeasonalESD:
    def __init__(self, period, window_size, max_anomalies, alpha=0.05, robust=True, **stl_kwargs):
        if max_anomalies < 1:
            raise ValueError()
        if window_size < 2 * period:
            raise ValueError()
        if max_anomalies > int(window_size * 0.49):
            raise ValueError()
        if not np.isfinite(alpha) or not 0 < alpha < 1:
            raise ValueError()
        self.window_size = window_size
        self.max_anomalies = max_anomalies
        self.alpha = alpha
        self.window = Window(window_size)
        self.residual_transformer = ModifiedSTLResidualTransformer(
            period=period, window_size=window_size, robust=robust, **stl_kwargs)

    def _value(self, X):
        X = np.asarray(X, dtype=np.float64)
        if X.shape != (1,):
            raise ValueError()
        return X[0]

    def _center_scale(self, values):
        return np.mean(values), np.std(values, ddof=1)

    def _critical(self, n, i):
        q = t.ppf(1.0 - self.alpha / (2.0 * (n - i + 1)), n - i - 1)
        return (n - i) * q / np.sqrt((n - i - 1 + q ** 2) * (n - i + 1))

    def _score_window(self, values):
        if values.shape[0] < self.window_size:
            return 0.0
        residuals = self.residual_transformer.transform_window(values)
        rest = np.asarray(residuals, dtype=np.float64)
        idx = np.arange(rest.shape[0])
        found = []
        for i in range(1, self.max_anomalies + 1):
            center, scale = self._center_scale(rest)
            if scale <= 1e-10:
                break
            dev = np.abs(rest - center) / scale
            j = int(np.argmax(dev))
            found.append((idx[j], dev[j], self._critical(residuals.shape[0], i)))
            rest = np.delete(rest, j)
            idx = np.delete(idx, j)
        n = 0
        for i, (_, r, c) in enumerate(found, start=1):
            if r > c:
                n = i
        for k, r, _ in found[:n]:
            if k == values.shape[0] - 1:
                return r
        return 0.0

    def fit_partial(self, X, y=None):
        self.window.update(self._value(X))
        return self

    def score_partial(self, X):
        values = self.window.get() + [self._value(X)]
        return self._score_window(np.asarray(values[-self.window_size:], dtype=np.float64))

    def fit_score_partial(self, X, y=None):
        self.fit_partial(X, y)
        return self._score_window(np.asarray(self.window.get(), dtype=np.float64))


class SeasonalHybridESD(SeasonalESD):
    def _center_scale(self, values):
        center = np.median(values)
        return center, 1.4826 * np.median(np.abs(values - center))


class RobustRandomCutForest:
    """a forest over the last tree_size instances; scoring leaves it unchanged"""

    def __init__(self, num_trees=4, shingle_size=4, tree_size=256):
        from rrcf import rrcf
        self.tree_size = tree_size
        self.num_trees = num_trees
        self.forest = [rrcf.RCTree() for _ in range(num_trees)]
        self.index = 0

    def fit_partial(self, X, y=None):
        for tree in self.forest:
            if len(tree.leaves) >= self.tree_size:
                tree.forget_point(self.index - self.tree_size)
            tree.insert_point(X, index=self.index)
        self.index += 1
        return self

    def score_partial(self, X):
        score = 0.0
        for tree in self.forest:
            leaf = tree.find_duplicate(X)
            if leaf is None:
                tree.insert_point(X, index="test_point")
                score += tree.codisp("test_point") / self.num_trees
                tree.forget_point("test_point")
            else:
                score += tree.codisp(leaf) / self.num_trees
        return score
