"""Concrete subclasses of the base classes: every partial call is recorded in `log`."""
import opaque
from pysad.core import BaseModel, BaseTransformer, BasePostprocessor


class ModelProbe(BaseModel):
    def __init__(self):
        self.log = []

    def fit_partial(self, X, y=None):
        self.log.append(("fit", X, y))
        return self

    def score_partial(self, X):
        self.log.append(("score", X, None))
        return opaque.score(self.log, X)


class TransformerProbe(BaseTransformer):
    def __init__(self, output_dims):
        super().__init__(output_dims)
        self.log = []

    def fit_partial(self, X):
        self.log.append(("fit", X))
        return self

    def transform_partial(self, X):
        self.log.append(("transform", X))
        return opaque.transform(self.log, X, self.output_dims)


class PostprocessorProbe(BasePostprocessor):
    def __init__(self):
        self.log = []

    def fit_partial(self, score):
        self.log.append(("fit", score))
        return self

    def transform_partial(self, score):
        self.log.append(("transform", score))
        return opaque.process(self.log, score)


class JointModelProbe(ModelProbe):
    """A model with its own combined call."""

    def fit_score_partial(self, X, y=None):
        self.log.append(("joint", X, y))
        return opaque.joint(self.log, X)


class JointTransformerProbe(TransformerProbe):
    """A transformer with its own combined call."""

    def fit_transform_partial(self, X):
        self.log.append(("joint", X))
        return opaque.transform(self.log, X, self.output_dims)


class JointPostprocessorProbe(PostprocessorProbe):
    """A postprocessor with its own combined call."""

    def fit_transform_partial(self, score):
        self.log.append(("joint", score))
        return opaque.joint(self.log, score)
