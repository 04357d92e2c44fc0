"""Streamers and utility functions wrapped as methods."""
import random
import numpy as np
from pysad.utils import ArrayStreamer, PandasStreamer, Data, fix_seed, get_minmax_array, get_minmax_scalar
from pysad.utils import _iterate


class ArrayStreamerProbe:
    def plain(self, X):
        return list(ArrayStreamer(shuffle=False).iter(X))

    def default(self, X):
        return list(ArrayStreamer().iter(X))

    def labelled(self, X, y):
        return list(ArrayStreamer(shuffle=False).iter(X, y))

    def shuffled(self, X, y):
        return list(ArrayStreamer(shuffle=True).iter(X, y))

    def shuffled_plain(self, X):
        return list(ArrayStreamer(shuffle=True).iter(X))

    def iterate(self, X):
        return list(_iterate(X))

    def iterate_labelled(self, X, y):
        return list(_iterate(X, y))


class PandasStreamerProbe:
    def plain(self, X):
        return list(PandasStreamer(shuffle=False).iter(X))

    def default(self, X):
        return list(PandasStreamer().iter(X))

    def labelled(self, X, y):
        return list(PandasStreamer(shuffle=False).iter(X, y))

    def shuffled(self, X, y):
        return list(PandasStreamer(shuffle=True).iter(X, y))

    def shuffled_plain(self, X):
        return list(PandasStreamer(shuffle=True).iter(X))


class MinMaxProbe:
    def array(self, X):
        return get_minmax_array(X)

    def scalar(self, x):
        return get_minmax_scalar(x)


class DataProbe:
    def __init__(self, data_base_path="data"):
        self.data = Data(data_base_path=data_base_path)

    def get_data(self, data_file):
        return self.data.get_data(data_file)

    def files(self):
        return self.data._get_data_files()

    def iterator(self, data_file):
        return list(self.data.get_iterator(data_file, shuffle=False))

    def shuffled(self, data_file, seed):
        return list(self.data.get_iterator(data_file, shuffle=True, seed=seed))

    def default_iterator(self, data_file):
        return list(self.data.get_iterator(data_file))


class SeedProbe:
    def draws(self, seed):
        fix_seed(seed)
        return np.random.uniform(), np.random.randint(0, 1000), random.random()
