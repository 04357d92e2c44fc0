"""Reference semantics of the batch methods, the streamers and the utilities."""
import os
import random
import opaque
import numpy as np


class ModelProbe:
    def __init__(self):
        self.log = []

    def fit_partial(self, X, y=None):
        self.log.append(("fit", X, y))
        return self

    def score_partial(self, X):
        self.log.append(("score", X, None))
        return opaque.score(self.log, X)

    def fit_score_partial(self, X, y=None):
        self.fit_partial(X, y)
        return self.score_partial(X)

    def fit(self, X, y=None):
        if y is None:
            for i in range(len(X)):
                self.fit_partial(X[i], None)
        else:
            assert len(X) == len(y)
            for i in range(len(X)):
                self.fit_partial(X[i], y[i])
        return self

    def score(self, X):
        out = np.empty(X.shape[0], dtype=np.float64)
        for i in range(len(X)):
            s = self.score_partial(X[i])
            out[i] = np.asarray(s).item() if np.asarray(s).ndim > 0 else s
        return out

    def fit_score(self, X, y=None):
        out = np.zeros(X.shape[0], dtype=np.float64)
        if y is None:
            for i in range(len(X)):
                s = self.fit_score_partial(X[i], None)
                out[i] = s.item() if hasattr(s, "item") else s
        else:
            assert len(X) == len(y)
            for i in range(len(X)):
                s = self.fit_score_partial(X[i], y[i])
                out[i] = s.item() if hasattr(s, "item") else s
        return out


class TransformerProbe:
    def __init__(self, output_dims):
        self.output_dims = output_dims
        self.log = []

    def fit_partial(self, X):
        self.log.append(("fit", X))
        return self

    def transform_partial(self, X):
        self.log.append(("transform", X))
        return opaque.transform(self.log, X, self.output_dims)

    def fit_transform_partial(self, X):
        self.fit_partial(X)
        return self.transform_partial(X)

    def fit(self, X):
        for i in range(len(X)):
            self.fit_partial(X[i])
        return self

    def transform(self, X):
        d = self.output_dims if self.output_dims > 0 else X.shape[1]
        out = np.empty((X.shape[0], d), dtype=np.float64)
        for i in range(len(X)):
            out[i] = self.transform_partial(X[i])
        return out

    def fit_transform(self, X):
        d = self.output_dims if self.output_dims > 0 else X.shape[1]
        out = np.empty((X.shape[0], d), dtype=np.float64)
        for i in range(len(X)):
            out[i] = self.fit_transform_partial(X[i])
        return out


class PostprocessorProbe:
    def __init__(self):
        self.log = []

    def fit_partial(self, score):
        self.log.append(("fit", score))
        return self

    def transform_partial(self, score):
        self.log.append(("transform", score))
        return opaque.process(self.log, score)

    def fit_transform_partial(self, score):
        self.fit_partial(score)
        return self.transform_partial(score)

    def fit(self, scores):
        for i in range(len(scores)):
            self.fit_partial(scores[i])
        return self

    def transform(self, scores):
        out = np.empty(scores.shape[0], dtype=np.float64)
        for i in range(len(scores)):
            r = self.transform_partial(scores[i])
            out[i] = np.asarray(r).item() if np.asarray(r).ndim > 0 else r
        return out

    def fit_transform(self, scores):
        out = np.empty(scores.shape[0], dtype=np.float64)
        for i in range(len(scores)):
            r = self.fit_transform_partial(scores[i])
            out[i] = np.asarray(r).item() if np.asarray(r).ndim > 0 else r
        return out


class JointModelProbe(ModelProbe):
    """A model with its own combined call."""

    def fit_score_partial(self, X, y=None):
        self.log.append(("joint", X, y))
        return opaque.joint(self.log, X)


class JointTransformerProbe(TransformerProbe):
    """A transformer with its own combined call."""

    def fit_transform_partial(self, X):
        self.log.append(("joint", X))
        return opaque.transform(self.log, X, self.output_dims)


class JointPostprocessorProbe(PostprocessorProbe):
    """A postprocessor with its own combined call."""

    def fit_transform_partial(self, score):
        self.log.append(("joint", score))
        return opaque.joint(self.log, score)


def _pairs(X, y):
    if y is None:
        return [X[i] for i in range(len(X))]
    assert len(X) == len(y)
    return [(X[i], y[i]) for i in range(len(X))]


class ArrayStreamerProbe:
    def plain(self, X):
        return [X[i] for i in range(len(X))]

    def default(self, X):
        return [X[i] for i in range(len(X))]

    def labelled(self, X, y):
        return _pairs(X, y)

    def shuffled(self, X, y):
        order = list(range(len(X)))
        np.random.shuffle(order)
        if y is None:
            return [X[i] for i in order]
        assert len(X) == len(y)
        return [(X[i], y[i]) for i in order]

    def shuffled_plain(self, X):
        order = list(range(len(X)))
        np.random.shuffle(order)
        return [X[i] for i in order]

    def iterate(self, X):
        return [(X[i], None) for i in range(len(X))]

    def iterate_labelled(self, X, y):
        if y is None:
            return [(X[i], None) for i in range(len(X))]
        return _pairs(X, y)


class PandasStreamerProbe:
    def plain(self, X):
        a = X.to_numpy()
        return [a[i] for i in range(len(a))]

    def default(self, X):
        a = X.to_numpy()
        return [a[i] for i in range(len(a))]

    def labelled(self, X, y):
        if y is None:
            return self.plain(X)
        assert len(X) == len(y)
        return _pairs(X.to_numpy(), y.to_numpy())

    def shuffled(self, X, y):
        if y is None:
            return self.shuffled_plain(X)
        assert len(X) == len(y)
        a, b = X.to_numpy(), y.to_numpy()
        order = list(range(len(a)))
        np.random.shuffle(order)
        assert len(a) == len(b)
        return [(a[i], b[i]) for i in order]

    def shuffled_plain(self, X):
        a = X.to_numpy()
        order = list(range(len(a)))
        np.random.shuffle(order)
        return [a[i] for i in order]


class MinMaxProbe:
    def array(self, X):
        return np.min(X, axis=0), np.max(X, axis=0)

    def scalar(self, x):
        return np.min(x), np.max(x)


class Data:
    def __init__(self, data_base_path="data"):
        self.data_base_path = data_base_path

    def get_data(self, data_file):
        path = os.path.join(self.data_base_path, data_file)
        if ".mat" in data_file:
            from scipy.io import loadmat
            f = loadmat(path)
            return f["X"], f["y"].ravel()
        a = np.loadtxt(path, delimiter=",")
        return a[:, :-1], a[:, -1].ravel()


class DataProbe:
    def __init__(self, data_base_path="data"):
        self.data = Data(data_base_path)

    def get_data(self, data_file):
        return self.data.get_data(data_file)

    def iterator(self, data_file):
        X, y = self.data.get_data(data_file)
        return _pairs(X, y)

    def shuffled(self, data_file, seed):
        if seed is not None:
            np.random.seed(seed)
        X, y = self.data.get_data(data_file)
        order = list(range(len(X)))
        np.random.shuffle(order)
        if y is None:
            return [X[i] for i in order]
        assert len(X) == len(y)
        return [(X[i], y[i]) for i in order]

    def default_iterator(self, data_file):
        return self.shuffled(data_file, None)


class SeedProbe:
    def draws(self, seed):
        random.seed(seed)
        np.random.seed(seed)
        return np.random.uniform(), np.random.randint(0, 1000), random.random()
