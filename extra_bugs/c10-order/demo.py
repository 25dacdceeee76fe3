import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp, numpy as np
import coordinax as cx, unxt as u
Q = u.Quantity
V = cx.vecs


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol), (a, b)


q = V.CartesianPos3D.from_(np.arange(18.0).reshape(2, 3, 3), "kpc")
close(q.reshape(3, 2, order="F").x.ustrip("kpc"), q.x.ustrip("kpc").reshape((3, 2), order="F"))
