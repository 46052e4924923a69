import numpy as np

_rng = np.random.default_rng(0)


class KDTree:
    def __init__(self, data):
        self.data = np.asarray(data)
        if self.data.ndim != 2:
            raise ValueError("data must be 2 dimensions")

    def query_pairs(self, r, p=2.0, eps=0, output_type="set"):
        x = self.data.astype(float)
        d = np.sqrt(((x[:, None, :] - x[None, :, :]) ** 2).sum(-1))
        i, j = np.nonzero(np.triu(d <= float(r), 1))
        a = np.stack([i, j], axis=1).astype(np.intp)
        a = a[_rng.permutation(len(a))]          # scipy promises no order
        if output_type == "ndarray":
            return a
        return {tuple(v) for v in a.tolist()}
