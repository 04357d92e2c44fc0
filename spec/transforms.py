"""Reference semantics of post-processors, calibrators, ensemblers, scalers."""
import math
from collections import deque
import numpy as np
from pyod.models.combination import aom, average, maximization, median, moa
from spec.statistics import (AverageMeter, MaxMeter, MedianMeter, VarianceMeter, RunningStatistic)
from spec.windows import Window, UnlimitedWindow


class AveragePostprocessor:
    def __init__(self):
        self.meter = AverageMeter()

    def fit_partial(self, score):
        self.meter.update(score)
        return self

    def transform_partial(self, score=None):
        return self.meter.get()


class MaxPostprocessor:
    def __init__(self):
        self.meter = MaxMeter()

    def fit_partial(self, score):
        self.meter.update(score)
        return self

    def transform_partial(self, score=None):
        return self.meter.get()


class MedianPostprocessor:
    def __init__(self):
        self.meter = MedianMeter()

    def fit_partial(self, score):
        self.meter.update(score)
        return self

    def transform_partial(self, score=None):
        return self.meter.get()


class ZScorePostprocessor:
    def __init__(self):
        self.average_meter = AverageMeter()
        self.variance_meter = VarianceMeter()

    def fit_partial(self, score):
        self.average_meter.update(score)
        self.variance_meter.update(score)
        return self

    def transform_partial(self, score):
        return (score - self.average_meter.get()) / np.sqrt(self.variance_meter.get())


class RunningAveragePostprocessor:
    def __init__(self, window_size):
        self.meter = RunningStatistic(AverageMeter, window_size)

    def fit_partial(self, score):
        self.meter.update(score)
        return self

    def transform_partial(self, score=None):
        return self.meter.get()


class RunningMaxPostprocessor:
    def __init__(self, window_size):
        self.meter = RunningStatistic(MaxMeter, window_size)

    def fit_partial(self, score):
        self.meter.update(score)
        return self

    def transform_partial(self, score=None):
        return self.meter.get()


class RunningMedianPostprocessor:
    def __init__(self, window_size):
        self.meter = RunningStatistic(MedianMeter, window_size)

    def fit_partial(self, score):
        self.meter.update(score)
        return self

    def transform_partial(self, score=None):
        return self.meter.get()


class RunningZScorePostprocessor:
    def __init__(self, window_size):
        self.average_meter = RunningStatistic(AverageMeter, window_size)
        self.variance_meter = RunningStatistic(VarianceMeter, window_size)

    def fit_partial(self, score):
        self.average_meter.update(score)
        self.variance_meter.update(score)
        return self

    def transform_partial(self, score):
        return (score - self.average_meter.get()) / np.sqrt(self.variance_meter.get())


class ConformalProbabilityCalibrator:
    """fraction of the remembered scores that exceed the score"""

    def __init__(self, windowed=True, window_size=300):
        self.window = Window(window_size) if windowed else UnlimitedWindow()

    def fit_partial(self, score):
        self.window.update(score)
        return self

    def transform_partial(self, score):
        w = self.window.get()
        return np.sum(np.array(w) > score) / len(w)


class GaussianTailProbabilityCalibrator:
    """normal CDF of the standardised score; unit deviation while the variance is zero"""

    def __init__(self, running_statistics=True, window_size=6400):
        if running_statistics:
            self.avg_meter = RunningStatistic(AverageMeter, window_size)
            self.var_meter = RunningStatistic(VarianceMeter, window_size)
        else:
            self.avg_meter = AverageMeter()
            self.var_meter = VarianceMeter()

    def fit_partial(self, score):
        self.avg_meter.update(score)
        self.var_meter.update(score)
        return self

    def transform_partial(self, score):
        var = self.var_meter.get()
        std = np.sqrt(var) if var > 0 else 1.0
        return 1 - 0.5 * math.erfc((score - self.avg_meter.get()) / std / math.sqrt(2))


class AverageScoreEnsembler:
    def __init__(self, estimator_weights=None):
        self.estimator_weights = estimator_weights

    def fit_partial(self, scores):
        return self

    def transform_partial(self, scores):
        return average(scores.reshape(1, -1), estimator_weights=self.estimator_weights)


class MaximumScoreEnsembler:
    def fit_partial(self, scores):
        return self

    def transform_partial(self, scores):
        return maximization(scores.reshape(1, -1))


class MedianScoreEnsembler:
    def fit_partial(self, scores):
        return self

    def transform_partial(self, scores):
        return median(scores.reshape(1, -1))


class AverageOfMaximumScoreEnsembler:
    def __init__(self, n_buckets=5, method="static", bootstrap_estimators=False):
        self.method, self.n_buckets, self.bootstrap_estimators = method, n_buckets, bootstrap_estimators

    def fit_partial(self, scores):
        return self

    def transform_partial(self, scores):
        return aom(scores.reshape(1, -1), n_buckets=self.n_buckets, method=self.method,
                   bootstrap_estimators=self.bootstrap_estimators)


class MaximumOfAverageScoreEnsembler:
    def __init__(self, n_buckets=5, method="static", bootstrap_estimators=False):
        self.method, self.n_buckets, self.bootstrap_estimators = method, n_buckets, bootstrap_estimators

    def fit_partial(self, scores):
        return self

    def transform_partial(self, scores):
        return moa(scores.reshape(1, -1), n_buckets=self.n_buckets, method=self.method,
                   bootstrap_estimators=self.bootstrap_estimators)


class IdentityScaler:
    def __init__(self):
        self.output_dims = -1

    def fit_partial(self, X):
        return self

    def transform_partial(self, X):
        return X


class InstanceStandardScaler:
    def __init__(self):
        self.output_dims = -1

    def fit_partial(self, X):
        return self

    def transform_partial(self, X):
        return (X - X.mean()) / X.std()


class InstanceUnitNormScaler:
    def __init__(self, pow=2):
        self.output_dims = -1
        self.pow = pow

    def fit_partial(self, X):
        return self

    def transform_partial(self, X):
        return X / np.linalg.norm(X, ord=self.pow)


class SeasonalTrendDecomposer:
    """residual after a moving-average trend and per-phase seasonal means"""

    def __init__(self, season_length, trend_window=None):
        if season_length < 1:
            raise ValueError('season_length')
        if trend_window is not None and trend_window < 1:
            raise ValueError('trend_window')
        self.season_length = season_length
        self.trend_window = season_length if trend_window is None else trend_window
        self.window = deque(maxlen=self.trend_window)
        self.seasonal_sums = None
        self.seasonal_counts = None
        self.num_seen = 0

    def _prepare(self, X):
        X = np.asarray(X[0] if isinstance(X, tuple) else X)
        if self.seasonal_sums is None:
            self.seasonal_sums = np.zeros((self.season_length, X.shape[0]))
            self.seasonal_counts = np.zeros(self.season_length)
        return X

    def _trend(self):
        return 0.0 if len(self.window) == 0 else np.mean(np.asarray(self.window), axis=0)

    def _seasonal(self, phase):
        if self.seasonal_counts[phase] == 0:
            return 0.0
        return self.seasonal_sums[phase] / self.seasonal_counts[phase]

    def fit_partial(self, X):
        X = self._prepare(X)
        phase = self.num_seen % self.season_length
        self.window.append(X)
        if len(self.window) == self.trend_window:
            self.seasonal_sums[phase] += X - self._trend()
            self.seasonal_counts[phase] += 1
        self.num_seen += 1
        return self

    def transform_partial(self, X):
        X = self._prepare(X)
        return X - self._trend() - self._seasonal(self.num_seen % self.season_length)

    def fit_transform_partial(self, X):
        phase = self.num_seen % self.season_length
        self.fit_partial(X)
        X = self._prepare(X)
        return X - self._trend() - self._seasonal(phase)


class ModifiedSTLResidualTransformer:
    """x - STL seasonal - median(x) over the window"""

    def __init__(self, period, window_size=None, robust=True, **stl_kwargs):
        if period < 2:
            raise ValueError('period')
        if window_size is not None and window_size < 2 * period:
            raise ValueError('window_size')
        self.output_dims = -1
        self.period = period
        self.window_size = window_size
        self.robust = robust
        self.stl_kwargs = stl_kwargs
        self.window = Window(window_size) if window_size is not None else None

    def _uni(self, X):
        if isinstance(X, tuple):
            X = X[0]
        X = np.asarray(X, dtype=np.float64)
        if X.ndim == 2 and X.shape[1] == 1:
            X = X.ravel()
        elif X.ndim != 1:
            raise ValueError('univariate')
        return X

    def _one(self, X):
        X = self._uni(X)
        if X.shape[0] != 1:
            raise ValueError('single value')
        return X[0]

    def transform_window(self, X):
        from statsmodels.tsa.seasonal import STL
        X = self._uni(X)
        if X.shape[0] < 2 * self.period:
            raise ValueError('too short')
        return X - STL(X, period=self.period, robust=self.robust, **self.stl_kwargs).fit().seasonal - np.median(X)

    def _latest(self, values):
        values = np.asarray(values, dtype=np.float64)
        if values.shape[0] < 2 * self.period:
            return 0.0
        return self.transform_window(values)[-1]

    def fit_partial(self, X):
        if self.window is None:
            raise ValueError('window_size')
        self.window.update(self._one(X))
        return self

    def transform_partial(self, X):
        if self.window is None:
            raise ValueError('window_size')
        values = self.window.get() + [self._one(X)]
        return self._latest(values[-self.window_size:])

    def fit_transform_partial(self, X):
        self.fit_partial(X)
        return self._latest(self.window.get())
