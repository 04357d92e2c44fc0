import numpy as np
from sklearn.random_projection import SparseRandomProjection, GaussianRandomProjection


class StreamhashProjector:
    """signed sparse projection by feature-index hashes"""

    def __init__(self, num_components, density=1 / 3.0):
        self.output_dims = num_components
        self.keys = np.arange(0, num_components, 1)
        self.constant = np.sqrt(1. / density) / np.sqrt(num_components)
        self.density = density

    def fit_partial(self, X):
        return self

    def transform_partial(self, X):
        X = X.reshape(1, -1)
        R = np.array([[self._hash(k, f) for f in [str(i) for i in range(X.shape[1])]] for k in self.keys])
        return np.dot(X, R.T).squeeze()

    def _hash(self, k, s):
        import mmh3
        h = int(mmh3.hash(s, signed=False, seed=int(k))) / (2.0 ** 32 - 1)
        if h <= self.density / 2.0:
            return -1 * self.constant
        elif h <= self.density:
            return self.constant
        return 0

    def fit_transform_partial(self, X):
        return self.fit_partial(X).transform_partial(X)


class GaussianRandomProjector:
    """one random matrix per projector"""

    def __init__(self, num_components='auto', *, eps=0.1):
        self.output_dims = num_components
        self.num_components = num_components
        self.eps = eps
        self._fitted_projector = None

    def fit_partial(self, X):
        return self

    def transform_partial(self, X):
        x = X.reshape(1, -1)
        if self._fitted_projector is None:
            self._fitted_projector = GaussianRandomProjection(n_components=self.num_components, eps=self.eps).fit(x)
        return self._fitted_projector.transform(x).reshape(-1)


class SparseRandomProjector:
    def __init__(self, num_components='auto', density="auto", eps=0.1):
        self.output_dims = num_components
        self.num_components = num_components
        self.density = density
        self.eps = eps
        self._fitted_projector = None

    def fit_partial(self, X):
        return self

    def transform_partial(self, X):
        x = X.reshape(1, -1)
        if self._fitted_projector is None:
            self._fitted_projector = SparseRandomProjection(
                n_components=self.num_components, density=self.density, eps=self.eps, dense_output=True).fit(x)
        return self._fitted_projector.transform(x).reshape(-1)
