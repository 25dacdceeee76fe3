import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp, numpy as np
import coordinax as cx, unxt as u
Q = u.Quantity
V = cx.vecs


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol), (a, b)


v = V.CartesianVel3D.from_([1.0, 0.0, 2.0], "km/s")
close(v.norm().ustrip("km/s"), 5 ** 0.5)
