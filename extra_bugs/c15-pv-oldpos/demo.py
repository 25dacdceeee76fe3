import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp, numpy as np
import coordinax as cx, unxt as u
Q = u.Quantity
V = cx.vecs


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol), (a, b)


op = cx.ops.GalileanSpatialTranslation(V.CartesianPos3D.from_([1.0, 2.0, 3.0], "kpc"))
q = V.CylindricalPos(rho=Q(1.0, "kpc"), phi=Q(0.3, "rad"), z=Q(2.0, "kpc"))
p = V.CylindricalVel(d_rho=Q(1.0, "km/s"), d_phi=Q(0.1, "km rad/(kpc s)"), d_z=Q(1.0, "km/s"))
q2, p2 = op(q, p)
a = p.represent_as(V.CartesianVel3D, q)
b = p2.represent_as(V.CartesianVel3D, q2)
close(a.d_x.ustrip("km/s"), b.d_x.ustrip("km/s"), 1e-6)
