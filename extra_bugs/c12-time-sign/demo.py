import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp, numpy as np
import coordinax as cx, unxt as u
Q = u.Quantity
V = cx.vecs


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol), (a, b)


op = cx.ops.GalileanTranslation(V.FourVector(t=Q(-2.0, "Gyr"), q=Q([1.0, 0.0, 0.0], "kpc")))
w = V.FourVector(t=Q(1.0, "Gyr"), q=Q([1.0, 2.0, 3.0], "kpc"))
close(op.inverse(op(w)).t.ustrip("Gyr"), 1.0)
