import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp, numpy as np
import coordinax as cx, unxt as u
Q = u.Quantity
V = cx.vecs


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol), (a, b)


w = V.FourVector(t=Q(2.0, "s"), q=Q([1.0, 0.0, 0.0], "km"), c=Q(3.0, "km/s"))
close(w._norm2().ustrip("km2"), 35.0)
