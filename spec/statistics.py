"""Reference semantics of the online statistics (state = sufficient statistics
of the multiset of values updated and not removed)."""
import math
from heapq import heappush
import numpy as np


class CountMeter:
    def __init__(self):
        self.count = 0

    def update(self, num):
        self.count = self.count + 1
        return self

    def remove(self, num=None):
        self.count = self.count - 1
        return self

    def get(self):
        return self.count


class SumMeter:
    def __init__(self):
        self.sum = 0.0

    def update(self, num):
        self.sum = self.sum + num
        return self

    def remove(self, num):
        self.sum = self.sum - num
        return self

    def get(self):
        return self.sum


class SumSquaresMeter:
    def __init__(self):
        self.sum_squares = 0.0

    def update(self, num):
        self.sum_squares = self.sum_squares + num * num
        return self

    def remove(self, num):
        self.sum_squares = self.sum_squares - num * num
        return self

    def get(self):
        return self.sum_squares


class AverageMeter:
    def __init__(self):
        self.sum = 0.0
        self.num_items = 0

    def update(self, num):
        self.sum = self.sum + num
        self.num_items = self.num_items + 1
        return self

    def remove(self, num):
        self.sum = self.sum - num
        self.num_items = self.num_items - 1
        return self

    def get(self):
        return self.sum / self.num_items


class VarianceMeter:
    """E[x^2] - E[x]^2, never negative"""

    def __init__(self):
        self.sum_meter = SumMeter()
        self.sum_squares_meter = SumSquaresMeter()
        self.count_meter = CountMeter()

    def update(self, num):
        self.sum_meter.update(num)
        self.sum_squares_meter.update(num)
        self.count_meter.update(num)
        return self

    def remove(self, num):
        self.sum_meter.remove(num)
        self.sum_squares_meter.remove(num)
        self.count_meter.remove(num)
        return self

    def get(self):
        n = self.count_meter.count
        mean = self.sum_meter.sum / n
        return max(self.sum_squares_meter.sum_squares / n - mean * mean, 0.0)


class MaxMeter:
    def __init__(self):
        self.max = -math.inf
        self.lst = []

    def update(self, num):
        heappush(self.lst, num)
        if num > self.max:
            self.max = num
        return self

    def remove(self, num):
        self.lst.remove(num)
        self.max = np.max(self.lst) if len(self.lst) > 0 else -math.inf
        return self

    def get(self):
        return self.max


class MinMeter:
    def __init__(self):
        self.min = math.inf
        self.lst = []

    def update(self, num):
        heappush(self.lst, num)
        if num < self.min:
            self.min = num
        return self

    def remove(self, num):
        self.lst.remove(num)
        self.min = np.min(self.lst) if len(self.lst) > 0 else math.inf
        return self

    def get(self):
        return self.min


class MedianMeter:
    """middle value (mean of the two middle values) of the sorted values"""

    def __init__(self):
        self.lst = []
        self.num_items = 0

    def update(self, num):
        heappush(self.lst, num)
        self.num_items = self.num_items + 1
        return self

    def remove(self, num):
        self.lst.remove(num)
        self.num_items = self.num_items - 1
        return self

    def get(self):
        self.lst = sorted(self.lst)
        h = self.num_items // 2
        if self.num_items % 2 == 0:
            return (self.lst[h - 1] + self.lst[h]) / 2
        return self.lst[h]


class AbsStatistic:
    def __init__(self, statistic_cls, **kwargs):
        self.statistic_cls = statistic_cls
        self.statistic = statistic_cls(**kwargs)

    def update(self, num):
        self.statistic.update(num)
        return self

    def remove(self, num):
        self.statistic.remove(num)
        return self

    def get(self):
        return abs(self.statistic.get())


class RunningStatistic:
    """the statistic of the last `window_size` values"""

    def __init__(self, statistic_cls, window_size, **kwargs):
        self.statistic_cls = statistic_cls
        self.statistic = statistic_cls(**kwargs)
        self.window_size = window_size
        self.window = []

    def update(self, num):
        self.window.append(num)
        self.statistic.update(num)
        if len(self.window) > self.window_size:
            self.statistic.remove(self.window[0])
            self.window = self.window[1:]
        return self

    def get(self):
        return self.statistic.get()
