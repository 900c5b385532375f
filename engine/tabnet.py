"""concrete networks for the run-time contracts: a table of log amplitudes, with and without direct sampling"""
import jax
import jax.numpy as jnp
import flax.linen as nn


class TabNet(nn.Module):
    L: int
    l: int = 2

    @nn.compact
    def __call__(self, s):
        t = self.param("t", lambda k, sh: 0.5 * jax.random.normal(k, sh, dtype=jnp.float64), (2, self.l ** self.L))
        i = jnp.sum(s.ravel() * self.l ** jnp.arange(self.L)[::-1])
        return t[0, i] + 1j * t[1, i]


class GenNet(nn.Module):
    """log amplitude table with direct sampling from |psi|^2"""
    L: int
    shape: tuple = None

    def setup(self):
        self.t = self.param("t", lambda k, sh: 0.5 * jax.random.normal(k, sh, dtype=jnp.float64), (2, 2 ** self.L))

    def __call__(self, s):
        i = jnp.sum(s.ravel() * 2 ** jnp.arange(self.L)[::-1])
        return (self.t[0, i] - 0.5 * jax.scipy.special.logsumexp(2 * self.t[0])) + 1j * self.t[1, i]

    def sample(self, numSamples, key):
        i = jax.random.categorical(key, 2 * self.t[0], shape=(numSamples,))
        b = (i[:, None] // 2 ** jnp.arange(self.L)[::-1]) % 2
        return b.reshape((numSamples,) + (self.shape or (self.L,)))
