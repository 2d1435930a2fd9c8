"""Generators whose draws are chosen by the simulator."""
import numpy as np


class Scripted(np.random.RandomState):
    """A RandomState whose resampling and process noise follow a script.

    Whatever isn't scripted is drawn as usual."""

    def __init__(self, seed, pick="real", noise="real"):
        super().__init__(seed)
        self.pick, self.noise = pick, noise
        self.aux = np.random.RandomState((seed * 7919 + 13) % 2 ** 32)
        self.used = {"pick": 0, "noise": 0}

    def choice(self, a, size=None, replace=True, p=None):
        out = super().choice(a, size, replace, p)
        if self.pick == "real" or np.ndim(a) != 1 or not np.ndim(out):
            return out
        a = np.asarray(a)
        o = np.argsort(a)
        self.used["pick"] += 1
        flat = out.ravel()
        n = len(flat)
        if self.pick == "max":
            flat[:] = a[o[-1]]
        elif self.pick == "min":
            flat[:] = a[o[0]]
        elif self.pick == "same":
            flat[:] = a[self.aux.randint(len(a))]
        elif self.pick == "alternate":
            flat[:] = np.where(np.arange(n) % 2, a[o[0]], a[o[-1]])
        elif self.pick == "runs":
            k = self.aux.randint(1, 9)
            flat[:] = a[self.aux.randint(len(a), size=n // k + 1)].repeat(k)[:n]
        elif self.pick == "extreme":
            flat[:] = np.where(self.aux.rand(n) < .5, a[o[0]], a[o[-1]])
        return flat.reshape(out.shape)

    def normal(self, loc=0., scale=1., size=None):
        out = super().normal(loc, scale, size)
        if self.pick == "real" or not np.ndim(out):
            return out
        self.used["pick"] += 1
        z = {"max": 5., "min": -5., "same": 1.5}.get(self.pick)
        n = out.size
        if z is None:
            z = np.where(self.aux.rand(n) < .5, -4., 4.).reshape(out.shape)
        return loc + scale * (z + np.zeros(out.shape))

    def gamma(self, shape, scale=1., size=None):
        out = super().gamma(shape, scale, size)
        if self.noise == "real" or not np.ndim(out):
            return out
        self.used["noise"] += 1
        if self.noise == "zero":
            return out * 0.
        if self.noise == "mean":
            return np.asarray(shape) * np.asarray(scale) + 0. * out
        if self.noise == "huge":
            return out * 1e6
        return np.where(self.aux.rand(*out.shape) < .5, out * 1e-12, out * 1e3)


PICKS = ["real", "real", "max", "min", "same", "alternate", "runs", "extreme"]
NOISES = ["real", "real", "zero", "mean", "huge", "mixed"]
