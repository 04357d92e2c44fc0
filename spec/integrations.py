import numpy as np
from pyod.models.iforest import IForest


class OneFitModel:
    def __init__(self, model_cls, initial_X, initial_y=None, **kwargs):
        self.kwargs = kwargs
        self.model_cls = model_cls
        self.reset_model()
        if initial_y is None:
            self.model.fit(initial_X)
        else:
            self.model.fit(initial_X, initial_y)

    def reset_model(self):
        self.model = self.model_cls(**self.kwargs)

    def fit_partial(self, X, y=None):
        return self

    def score_partial(self, X):
        return self.model.decision_function([X])[0]


class ReferenceWindowModel:
    """refitted every sliding_size instances on the last window_size instances"""

    def __init__(self, model_cls, window_size, sliding_size, initial_window_X=None, initial_window_y=None, **kwargs):
        self.model_cls = model_cls
        self.kwargs = kwargs
        self.model = None
        self.window_size = window_size
        self.sliding_size = sliding_size
        self.cur_window_X = []
        self.cur_window_y = []
        self.reference_window_X = initial_window_X
        self.reference_window_y = initial_window_y
        self.initial_ref_window = initial_window_X is not None
        if initial_window_X is not None:
            self._refit()

    def _refit(self):
        self.model = self.model_cls(**self.kwargs)
        if self.reference_window_y is None:
            self.model.fit(self.reference_window_X)
        else:
            self.model.fit(self.reference_window_X, self.reference_window_y)

    def fit_partial(self, X, y=None):
        self.cur_window_X.append(X)
        if y is not None:
            self.cur_window_y.append(y)
        labelled = len(self.cur_window_y) == len(self.cur_window_X)
        if self.reference_window_X is None or (
                not self.initial_ref_window and len(self.cur_window_X) < self.window_size
                and len(self.reference_window_X) < self.window_size):
            self.reference_window_X = self.cur_window_X.copy()
            self.reference_window_y = self.cur_window_y.copy() if labelled else None
            self._refit()
        elif len(self.cur_window_X) % self.sliding_size == 0:
            X_all = np.concatenate([self.reference_window_X, self.cur_window_X], axis=0)
            self.reference_window_X = X_all[max(0, len(X_all) - self.window_size):]
            if labelled and self.reference_window_y is not None:
                y_all = np.concatenate([self.reference_window_y, self.cur_window_y], axis=0)
                self.reference_window_y = y_all[max(0, len(y_all) - self.window_size):]
            else:
                self.reference_window_y = None
            self.cur_window_X = []
            self.cur_window_y = []
            self._refit()
        return self

    def score_partial(self, X):
        return self.model.decision_function([X])[0]


class IForestASD(ReferenceWindowModel):
    def __init__(self, initial_window_X=None, window_size=2048, **kwargs):
        ReferenceWindowModel.__init__(self, IForest, window_size, window_size, initial_window_X, **kwargs)
