"""Ghost Astropy objects: what the extraction assumes about Astropy.

Astropy stores component values in numpy arrays, which cannot hold the symbolic
values of an extraction.  While a value is symbolic (a jax tracer):

* ``astropy.units.Quantity(value, unit)`` is a ghost: a Quantity (sub)class
  instance with that unit whose ``.value`` is the symbolic value;
* a representation or differential built from ghosts stores them, broadcast
  against each other, as its components under the names of ``attr_classes``
  (a ``Longitude`` is reduced modulo one turn);
* ``represent_as`` of its own class is the identity, of another class goes
  through the Cartesian point by the textbook formulas.

This is the assumed contract on Astropy.  Concrete values -- every execution
that cross-checks an extraction -- use the real Astropy, untouched.
"""
from __future__ import annotations

import types

import astropy.coordinates as apyc
import astropy.units as apyu
import jax
import jax.numpy as jnp
import numpy as np
import quaxed.numpy as qnp
import unxt as u

from .interp import Unsupported

REPS = (apyc.CartesianRepresentation, apyc.CylindricalRepresentation, apyc.PhysicsSphericalRepresentation, apyc.SphericalRepresentation)
DIFFS = (apyc.CartesianDifferential, apyc.CylindricalDifferential, apyc.PhysicsSphericalDifferential, apyc.SphericalDifferential, apyc.SphericalCosLatDifferential)


class Ghost:
    """Mixin: an Astropy quantity whose value is symbolic."""

    @property
    def value(self):
        return self._sym

    def to_value(self, unit=None, equivalencies=()):
        if unit is None:
            return self._sym
        return u.Quantity(self._sym, self._unit).to(apyu.Unit(unit)).value

    def to(self, unit, equivalencies=(), copy=True):
        return make(type(self), self.to_value(unit), unit)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        f = getattr(qnp, ufunc.__name__, None)
        if method != "__call__" or kw or f is None:
            raise Unsupported(f"numpy {ufunc.__name__} on a ghost")
        r = f(*map(unxt_of, inputs))
        return make(GQ, r.value, r.unit) if isinstance(r, u.quantity.AbstractQuantity) else r

    def __array_function__(self, f, types, args, kwargs):
        raise Unsupported(f"numpy {f.__name__} on a ghost")

    def __getitem__(self, i):
        return make(type(self), self._sym[i], self._unit)

    def __bool__(self):
        raise Unsupported("truth value of a ghost")

    def __float__(self):
        raise Unsupported("float of a ghost")

    def __repr__(self):
        return f"<ghost {type(self).__name__} [{self._unit}]>"

    __str__ = __repr__

    def __array_finalize__(self, obj):
        pass


class GQ(Ghost, apyu.Quantity):
    pass


class GAngle(Ghost, apyc.Angle):
    pass


class GLongitude(Ghost, apyc.Longitude):
    pass


class GLatitude(Ghost, apyc.Latitude):
    pass


class GDistance(Ghost, apyc.Distance):
    pass


FOR = {apyu.Quantity: GQ, apyc.Angle: GAngle, apyc.Longitude: GLongitude, apyc.Latitude: GLatitude, apyc.Distance: GDistance}


def unxt_of(x):
    if isinstance(x, Ghost):
        return u.Quantity(x._sym, x._unit)
    if isinstance(x, apyu.Quantity):
        return u.Quantity(jnp.asarray(x.value), x.unit)
    return x


def make(cls, value, unit):
    g = np.ndarray.__new__(cls, np.shape(value), dtype=float)
    np.ndarray.fill(g.view(np.ndarray), np.nan)
    g._unit = apyu.Unit(unit)
    g._sym = value
    return g


_quantity_new = apyu.Quantity.__new__


def _new(cls, value, unit=None, *args, **kw):
    if isinstance(value, Ghost):
        return make(FOR.get(cls, type(value)), value._sym if unit is None else value.to_value(unit), unit or value._unit)
    if isinstance(value, jax.core.Tracer):
        if cls not in FOR:
            raise Unsupported(f"ghost {cls.__name__}")
        return make(FOR[cls], value, unit or apyu.dimensionless_unscaled)
    return _quantity_new(cls, value, unit, *args, **kw)


def _store(self, comps):
    """Broadcast and store the components."""
    vals = {}
    shape = np.broadcast_shapes(*[np.shape(x._sym) if isinstance(x, Ghost) else np.shape(x) for x in comps.values()])
    for c, q in comps.items():
        k = type(self).attr_classes[c]
        q = unxt_of(q)
        v, unit = q.value, q.unit
        if k is apyc.Longitude or (k is apyc.Angle and c == "phi"):
            v = v % apyu.cycle.to(unit)
        if k is apyu.Quantity and c in ("r", "distance") and apyu.Unit(unit).is_equivalent("m"):
            k = apyc.Distance
        vals[c] = make(FOR[k], jnp.broadcast_to(v, shape), unit)
    for c, g in vals.items():
        setattr(self, f"_{c}", g)
    if isinstance(self, apyc.BaseRepresentation):
        self._differentials = {}
    self.__dict__["_ghost"] = True


def _wrap_init(cls):
    orig = cls.__init__

    def __init__(self, *args, **kw):
        names = list(cls.attr_classes)
        given = dict(zip(names, args, strict=False)) | {k: v for k, v in kw.items() if k in names}
        if type(self) is cls and any(isinstance(x, Ghost) for x in given.values()):
            if set(given) != set(names) or len(args) > len(names) or any(v is not None for k, v in kw.items() if k not in (*names, "copy")):
                raise Unsupported(f"this form of {cls.__name__} on ghosts")
            _store(self, given)
        else:
            orig(self, *args, **kw)

    cls.__init__ = __init__


def cartesian(rep):
    """The Cartesian coordinates (unxt) of a representation."""
    q = {c: unxt_of(getattr(rep, c)) for c in type(rep).attr_classes}
    if isinstance(rep, apyc.CartesianRepresentation):
        return q["x"], q["y"], q["z"]
    if isinstance(rep, apyc.CylindricalRepresentation):
        return q["rho"] * qnp.cos(q["phi"]), q["rho"] * qnp.sin(q["phi"]), q["z"]
    if isinstance(rep, apyc.PhysicsSphericalRepresentation):
        s = q["r"] * qnp.sin(q["theta"])
        return s * qnp.cos(q["phi"]), s * qnp.sin(q["phi"]), q["r"] * qnp.cos(q["theta"])
    s = q["distance"] * qnp.cos(q["lat"])
    return s * qnp.cos(q["lon"]), s * qnp.sin(q["lon"]), q["distance"] * qnp.sin(q["lat"])


def shortcut(rep, other):
    """Astropy's direct conversions, which keep the azimuth and its unit."""
    q = {c: unxt_of(getattr(rep, c)) for c in type(rep).attr_classes}
    right = u.Quantity(90.0, "deg")
    match type(rep).__name__, other.__name__:
        case "CylindricalRepresentation", "PhysicsSphericalRepresentation":
            return {"phi": q["phi"], "theta": qnp.arctan2(q["rho"], q["z"]), "r": qnp.sqrt(q["rho"] ** 2 + q["z"] ** 2)}
        case "PhysicsSphericalRepresentation", "CylindricalRepresentation":
            return {"rho": q["r"] * qnp.sin(q["theta"]), "phi": q["phi"], "z": q["r"] * qnp.cos(q["theta"])}
        case "PhysicsSphericalRepresentation", "SphericalRepresentation":
            return {"lon": q["phi"], "lat": right - q["theta"], "distance": q["r"]}
        case "SphericalRepresentation", "PhysicsSphericalRepresentation":
            return {"phi": q["lon"], "theta": right - q["lat"], "r": q["distance"]}
    return None


def _wrap_represent(cls):
    orig = cls.represent_as

    def represent_as(self, other_class, differential_class=None):
        if "_ghost" not in self.__dict__ or other_class is type(self):
            return orig(self, other_class, differential_class)
        if differential_class or other_class not in REPS:
            raise Unsupported(f"represent_as({other_class}) on ghosts")
        new = other_class.__new__(other_class)
        c = shortcut(self, other_class)
        if c is not None:
            _store(new, {k: make(GQ, v.value, v.unit) for k, v in c.items()})
            return new
        x, y, z = cartesian(self)
        rho = qnp.sqrt(x**2 + y**2)
        az = qnp.arctan2(y, x)
        if other_class is apyc.CartesianRepresentation:
            c = {"x": x, "y": y, "z": z}
        elif other_class is apyc.CylindricalRepresentation:
            c = {"rho": rho, "phi": az, "z": z}
        else:
            r = qnp.sqrt(x**2 + y**2 + z**2)
            c = {"phi": az, "theta": qnp.arctan2(rho, z), "r": r} if other_class is apyc.PhysicsSphericalRepresentation else {"lon": az, "lat": qnp.arctan2(z, rho), "distance": r}
        _store(new, {k: make(GQ, v.value, v.unit) for k, v in c.items()})
        return new

    cls.represent_as = represent_as


def install():
    if getattr(apyu.Quantity, "_dv_ghost", False):
        return
    apyu.Quantity._dv_ghost = True
    apyu.Quantity.__new__ = _new
    for c in REPS + DIFFS:
        _wrap_init(c)
    for c in REPS:
        _wrap_represent(c)


class _GhostField:
    """An Astropy frame attribute that a ghost value can replace."""

    def __init__(self, attr):
        self._attr = attr

    def __getattr__(self, name):
        return getattr(self._attr, name)

    def __get__(self, frame, cls=None):
        if frame is None:
            return self
        d = frame.__dict__.get("_dv", {})
        name = self._attr.name
        return d[name] if name in d else self._attr.__get__(frame, cls)


class GhostGalactocentric(apyc.Galactocentric):
    """A Galactocentric frame (without data) whose parameters are ghosts."""


for _n, _a in apyc.Galactocentric.frame_attributes.items():
    setattr(GhostGalactocentric, _n, _GhostField(_a))


def galactocentric(*, galcen_coord, **kw):
    """apyc.Galactocentric with these parameters; galcen_coord is (ra, dec)."""
    ra, dec = galcen_coord
    if not isinstance(ra, Ghost):
        return apyc.Galactocentric(galcen_coord=apyc.ICRS(ra=ra, dec=dec), **kw)
    f = GhostGalactocentric()
    ra = make(GLongitude, ra.to_value("deg") % 360.0, "deg")  # sky frames give degrees
    coord = types.SimpleNamespace(ra=ra, dec=make(GLatitude, dec.to_value("deg"), "deg"))
    coord.spherical = types.SimpleNamespace(lon=coord.ra, lat=coord.dec)
    for k, a in apyc.Galactocentric.frame_attributes.items():
        if isinstance(kw.get(k), Ghost) and getattr(a, "unit", None) is not None:
            kw[k] = kw[k].to(a.unit)  # the unit the frame attribute is declared in
    f.__dict__["_dv"] = dict(kw, galcen_coord=coord)
    return f
