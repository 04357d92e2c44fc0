from sklearn.metrics import precision_score, recall_score, roc_auc_score, average_precision_score
from spec.statistics import AverageMeter


class _Pairs:
    def __init__(self):
        self.y_true = []
        self.y_pred = []

    def update(self, y_true, y_pred):
        self.y_true.append(y_true)
        self.y_pred.append(y_pred)


class PrecisionMetric(_Pairs):
    def get(self):
        return precision_score(self.y_true, self.y_pred)


class RecallMetric(_Pairs):
    def get(self):
        return recall_score(self.y_true, self.y_pred)


class AUROCMetric(_Pairs):
    def get(self):
        if len(set(self.y_true)) <= 1:
            raise ValueError()
        return roc_auc_score(self.y_true, self.y_pred)


class AUPRMetric(_Pairs):
    def get(self):
        return average_precision_score(self.y_true, self.y_pred)


class WindowedMetric:
    """mean of the metric over consecutive windows"""

    def __init__(self, metric_cls, window_size, ignore_nonempty_last=True, **kwargs):
        self.ignore_nonempty_last = ignore_nonempty_last
        self.window_size = window_size
        self.metric_cls = metric_cls
        self.kwargs = kwargs
        self.metric = metric_cls(**kwargs)
        self.score_meter = AverageMeter()
        self.step = 0
        self.num_windows = 1

    def update(self, y_true, y_pred):
        self.step += 1
        self.metric.update(y_true, y_pred)
        if self.step % self.window_size == 0:
            self.score_meter.update(self.metric.get())
            self.metric = self.metric_cls(**self.kwargs)
            self.num_windows += 1
        return self

    def get(self):
        if self.num_windows == 1:
            return self.metric.get()
        if not self.ignore_nonempty_last and self.step % self.window_size != 0:
            return (self.metric.get() + self.score_meter.get() * (self.num_windows - 1)) / self.num_windows
        return self.score_meter.get()
