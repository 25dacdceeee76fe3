"""Writes properties.jsonl (kept as a script so the wording is edited in one place)."""
import json
import pathlib

P = []
V = "src/coordinax/_src/vectors/"
O = "src/coordinax/_src/operators/"
S = "src/coordinax/_coordinax_space_frames/"


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


p("C01", "Changing a position's representation keeps the point",
  "Converting a position to any other representation of the same dimension (1D, 2D, 3D) gives the same physical point, i.e. the same Cartesian coordinates, for every valid position at which the target's coordinates are defined, in any units and for any kind of distance value (length, parallax, distance modulus). The result obeys the target's coordinate ranges and holds no NaN, so conversions can be chained and round trips return the starting point.",
  ["inputs", "configurations"],
  "all real component values in the source's ranges (away from the origin or the foci, where the target's angles are undefined) x all ordered pairs of same-dimension representations x component units and distance kinds",
  "Tests and doctests convert a few sample points for some pairs; the claim is an identity over a continuum with cases (axes, quadrants, southern hemisphere, equator) that samples miss.",
  [V + "d1/transform.py", V + "d2/transform.py", V + "d3/transform.py", V + "transform/d3.py", V + "d3/generic.py"],
  [("position conversion methods", V + "d3/transform.py, d2/transform.py, d1/transform.py"),
   ("range checks and azimuth wrapping on construction", V + "checks.py, converters.py")],
  ["represent_as(position, target)", "position.represent_as(target)"])

p("C02", "A velocity is converted as the tangent vector at its position",
  "Converting a velocity, together with the position where it is attached, gives the components of the same tangent vector: the Cartesian velocity implied by position and velocity is unchanged, for every pair of same-dimension velocity representations (including the cos-latitude form), at every position where both are regular, in any units. Converting back at the same position returns the original velocity, and it does not matter in which representation that position is supplied.",
  ["inputs", "configurations"],
  "all regular positions and all velocities x all ordered pairs of velocity representations x representation of the supplied position x units",
  "Tests compare a few sample vectors; the claim involves the whole Jacobian at every point.",
  [V + "transform/velocities.py", V + "d3/transform.py", V + "d3/lonlatspherical.py"],
  [("Jacobian pushforward of differentials", V + "transform/velocities.py"),
   ("cos(latitude) conversions", V + "d3/transform.py")],
  ["represent_as(velocity, target, position)"])

p("C03", "An acceleration is converted linearly with the position's Jacobian",
  "Converting an acceleration together with its position multiplies it by the Jacobian of the position conversion at that position (the transformation the library defines for accelerations), for every pair of same-dimension acceleration representations, at every regular position and in any units. Hence converting back at the same position returns the original acceleration, and conversion to the same representation changes nothing.",
  ["inputs", "configurations"],
  "all regular positions and all accelerations x all ordered pairs of acceleration representations x units",
  "Tests check a few sample vectors only.",
  [V + "transform/accelerations.py"],
  [("Jacobian pushforward of differentials", V + "transform/accelerations.py")],
  ["represent_as(acceleration, target, velocity, position)"])

p("C04", "Positions outside a representation's range cannot be constructed",
  "Constructing a position (outside jax.jit) succeeds exactly when its components are in the representation's range: radial distances and axis-distances non-negative, polar angles in [0, 180] deg, latitudes in [-90, 90] deg, spheroidal mu >= Delta^2, |nu| <= Delta^2, Delta > 0; otherwise it raises. Azimuths given as plain quantities are reduced into [0, 360) deg without changing the direction, and the normalising spherical constructors accept negative distances and out-of-range angles and return the same point with in-range components.",
  ["inputs", "configurations"],
  "all real component values, in any angle or length unit x all position representations",
  "Tests probe a few values; boundaries (0, 90, 180, 360 deg, negative azimuths, several turns) and unit conversion inside the checks are unbounded.",
  [V + "checks.py", V + "converters.py", V + "d2/polar.py", V + "d2/spherical.py", V + "d3/spherical.py", V + "d3/mathspherical.py",
   V + "d3/lonlatspherical.py", V + "d3/cylindrical.py", V + "d3/spheroidal.py"],
  [("range checks", V + "checks.py"), ("azimuth converter", V + "converters.py"),
   ("normalising constructors", V + "d3/spherical.py, d3/mathspherical.py, d3/lonlatspherical.py")],
  ["class constructors", "Class.from_(r=..., theta=..., phi=...)"])

p("C05", "Conversions between dimensions embed and project consistently",
  "Converting a position to a representation of lower dimension keeps the coordinates the two share (x from a line, x and y or the in-plane polar coordinates from a volume, the source's own radius for a radial target) and warns that the change is irreversible. Converting to a higher dimension keeps those coordinates, fills the missing ones with zero or with the values passed as keywords, and does not warn; lifting to a Cartesian or cylindrical form and projecting back returns the original position.",
  ["inputs", "configurations"],
  "all valid component values x all supported cross-dimension pairs x keyword or default fill values x units",
  "Tests sample single points per pair.",
  [V + "transform/d1.py", V + "transform/d2.py", V + "transform/d3.py"],
  [("cross-dimension conversion methods", V + "transform/d1.py, transform/d2.py, transform/d3.py")],
  ["represent_as(position, target, **kwargs)", "IrreversibleDimensionChange warnings"])

p("C06", "Vector arithmetic agrees with Cartesian vector arithmetic",
  "Adding, subtracting, negating, and scaling (by multiplication or division with any number), wherever the library supports the operation for the operands' classes, gives the vector whose Cartesian components are the sums, differences, negatives or multiples of the operands' Cartesian components, whatever the representation of the positions and whatever (different) compatible units the operands carry. Multiplying a Cartesian velocity by a time gives the displacement and a Cartesian acceleration by a time gives the velocity change.",
  ["inputs", "configurations"],
  "all component values and scalars for which operands and result are representable x vector classes x operand units",
  "Tests use a few vectors, almost always with identical units on both operands.",
  [V + "base/base_pos.py", V + "base/register_primitives.py", V + "d1/cartesian.py", V + "d2/cartesian.py", V + "d3/cartesian.py", V + "dn/cartesian.py", V + "base/base.py"],
  [("primitive registrations for add, sub, mul, div, neg", V + "base/base_pos.py, d*/cartesian.py")],
  ["operators + - * / and unary minus on vectors"])

p("C07", "Equality of vectors compares physical values",
  "Two vectors of the same class compare equal element by element exactly when all their components are equal as physical quantities, independent of the units they are stored in and of how the component arrays broadcast. Inequality is the negation of equality, and a position never equals a velocity.",
  ["inputs", "configurations"],
  "all component values x vector classes x pairs of units x component shapes",
  "Tests compare equal-unit sample vectors.",
  [V + "base/base.py", V + "d4/spacetime.py", V + "dn/cartesian.py"],
  [("element-wise equality", V + "base/base.py"), ("equality primitive registrations", V + "base/register_primitives.py, base/base_pos.py")],
  ["vec1 == vec2", "vec1 != vec2"])

p("C08", "The norm is the Cartesian length of the vector",
  "The norm of a position, in any representation and units, is non-negative and its square is the sum of squares of the Cartesian coordinates; the norm of a velocity or acceleration is likewise the length of its Cartesian components (at the given position when the representation is not Cartesian).",
  ["inputs", "configurations"],
  "all valid component values x all representations x units",
  "Tests check integers triples; several representations have their own closed formula.",
  [V + "base/base_pos.py", V + "base/base_vel.py", V + "base/base_acc.py", V + "d1/cartesian.py", V + "d2/cartesian.py", V + "d2/polar.py",
   V + "d3/cartesian.py", V + "d3/spherical.py", V + "d3/mathspherical.py", V + "d3/lonlatspherical.py", V + "d3/cylindrical.py", V + "dn/cartesian.py"],
  [("norm implementations", V + "base/base_pos.py, base/base_vel.py, d*/*.py")],
  ["vector.norm(...)"])

p("C09", "Changing units never changes the quantity",
  "Converting the units of a position, velocity, acceleration or N-dimensional vector, through any of the accepted specifications (a unit system, a mapping from physical types to units, or the option asking for mutually consistent units), gives a vector of the same class, with components of the same kinds, that are the same physical quantities expressed in exactly the unit requested for their physical type (for the consistent option: the unit of the first component of that type).",
  ["inputs", "configurations"],
  "all component values x vector classes x unit specifications",
  "Tests use single values and one or two unit systems.",
  [V + "base/base.py", V + "base/compat.py", V + "dn/base.py", S + "distances/core.py"],
  [("unit conversion methods", V + "base/compat.py, base/base.py")],
  ["vec.uconvert(...)", "unxt.uconvert(..., vec)"])

p("C10", "Array-shape operations act on a vector as on the array of its points",
  "Indexing, reshaping, flattening, ravelling, transposing, and swapping the last two axes of a vector gives the vector whose i-th point is the corresponding point of the original, also when the component arrays have different but broadcastable shapes, and for N-dimensional and space-time vectors. The reported shape, size, number of dimensions, and length are those of the broadcast components.",
  ["inputs", "configurations"],
  "all element values (each element an independent variable) x component-shape combinations x operations and indices x vector classes",
  "Tests use few shapes and mostly equal-shaped components.",
  [V + "base/base.py", V + "dn/base.py", V + "d4/spacetime.py", V + "space/core.py"],
  [("array API of vectors", V + "base/base.py, dn/base.py, d4/spacetime.py, space/core.py")],
  ["vec[i], vec.reshape, vec.flatten, vec.ravel, vec.T, vec.mT, vec.shape, len(vec)"])

p("C11", "Distance, parallax and distance modulus are inverse views of one distance",
  "For every positive distance, the parallax p and distance modulus m derived from it satisfy d tan(p) = 1 AU and m = 5 log10(d / 10 pc), whatever the units, and converting back from parallax or modulus returns the same distance, through the attributes and the from_ constructors alike. A negative parallax is refused unless that check is switched off, and each kind refuses units of the wrong dimension.",
  ["inputs", "configurations"],
  "all positive distances (parallaxes below 90 deg, all moduli) x pairs of the three kinds x units",
  "Tests check sample values in default units.",
  ["src/coordinax/_src/distances/core.py", "src/coordinax/_src/distances/compat.py", "src/coordinax/_src/distances/register_primitives.py"],
  [("conversions between the three kinds", "src/coordinax/_src/distances/core.py")],
  ["Distance.parallax, .distance_modulus", "Parallax.distance, .distance_modulus", "DistanceModulus.distance, .parallax"])

p("C12", "An operator's inverse undoes it",
  "For every operator, applying the operator and then its inverse (or the other way round) returns the original input, for every kind of input the operator accepts: position vectors in any representation, quantities, space-time vectors, positions with time, and positions with velocities. The inverse of an inverse acts as the original operator.",
  ["inputs", "configurations", "programs"],
  "all operator parameters (rotations: all orthogonal matrices) x all inputs (boost velocities Cartesian) x operator classes, pipes and composites x input forms",
  "Tests apply fixed operators to fixed inputs.",
  [O + "base.py", O + "pipe.py", O + "identity.py", O + "boost.py", O + "galilean/rotation.py", O + "galilean/translation.py", O + "galilean/spatial_translation.py",
   O + "galilean/boost.py", O + "galilean/composite.py", S + "frame_transforms.py"],
  [("inverse properties", O + "**")],
  ["op.inverse(op(x))"])

p("C13", "Composition applies operators in order",
  "Composing operators, by a pipe object or with the | operator in any grouping, gives an operator that applies its members from left to right: applied to an input it returns what applying them one after another returns, an empty pipe or the identity changes nothing, and the inverse applies the inverses in reverse order. Indexing or slicing a composition gives the operator(s) at those places.",
  ["programs", "inputs", "configurations"],
  "all sequences of operators (members as arbitrary functions) up to the stated length x groupings x input forms x operator parameters (boost velocities Cartesian)",
  "Tests compose two or three specific operators.",
  [O + "pipe.py", O + "base.py", O + "composite.py"],
  [("sequential application", O + "pipe.py, composite.py"), ("the | operator", O + "base.py, pipe.py")],
  ["(a | b | c)(x)", "Pipe((a, b, c))(x)", "pipe.inverse", "pipe[i]"])

p("C14", "Simplifying an operator does not change what it does",
  "Simplifying any operator or composition gives an operator that maps every input to the same result as the unsimplified one (up to the closeness tolerance used to recognise a trivial rotation, translation or boost), and simplifying never fails for an operator that can be applied.",
  ["programs", "inputs", "configurations"],
  "all operator parameters x ordered pairs (and triples) of operator classes x input forms (boost velocities Cartesian)",
  "Tests simplify specific operators, mostly commuting pairs or trivial ones.",
  [O + "register_simplify.py", O + "pipe.py", O + "galilean/rotation.py", O + "galilean/translation.py", O + "galilean/spatial_translation.py", O + "galilean/boost.py",
   O + "galilean/composite.py", O + "boost.py"],
  [("simplification rules", O + "**")],
  ["simplify_op(op)(x)", "simplify_op(a, b)"])

p("C15", "Galilean operators act by their definition on every kind of input",
  "A rotation multiplies Cartesian coordinates by its matrix, a spatial translation adds its offset, a space-time translation adds its offset to time and position, a Galilean boost adds velocity times time to the position, a velocity boost adds its velocity, and the composite applies rotation, translation and boost in that order. This holds for position vectors in any representation (the result keeps the input's representation), for quantities, for space-time vectors (whose time and reference speed are otherwise kept), and for positions given with a time.",
  ["inputs", "configurations"],
  "all operator parameters x all inputs x input forms and representations x units (boost velocities Cartesian)",
  "Tests apply fixed operators to fixed points.",
  [O + "galilean/rotation.py", O + "galilean/translation.py", O + "galilean/spatial_translation.py", O + "galilean/boost.py", O + "galilean/composite.py", O + "boost.py", O + "compat.py"],
  [("operator application methods", O + "**")],
  ["op(q)", "op(q, t)", "op(fourvector)", "op(q, p)"])

p("C16", "Frame transformations are consistent and invertible",
  "Transforming positions (and velocities) from the ICRS frame to a Galactocentric frame and back returns the original, for every Galactocentric parameter choice; the transformation preserves distances between points, sends the declared galactic centre to the origin and the Sun to its declared height, and offsets velocities by the declared solar velocity. Transforming between two Galactocentric frames equals going through ICRS, a frame to itself is the identity, and transforming to or from the null frame is refused.",
  ["inputs", "configurations"],
  "all positions, velocities and frame parameters (galactic-centre direction and distance, roll, solar height, solar velocity) x frame pairs",
  "Tests compare a few points with another package for the default parameters.",
  [S + "frame_transforms.py", S + "galactocentric.py", "src/coordinax/_src/frames/xfm.py", "src/coordinax/_src/frames/base.py", "src/coordinax/_src/frames/null.py"],
  [("ICRS to Galactocentric operator and its inverse", S + "frame_transforms.py")],
  ["frame_transform_op(from, to)(q, p)", "frame.transform_op"])

p("C17", "Conversion to and from Astropy keeps the values",
  "Converting a vector, differential, distance or frame to its Astropy counterpart and back returns the same vector, and each Astropy component holds the physical value of the component with the same meaning (units, latitude versus inclination, proper-motion conventions included).",
  ["inputs", "configurations"],
  "all component values x classes with an Astropy counterpart x units",
  "Tests convert one sample object per class.",
  ["src/coordinax/_interop/coordinax_interop_astropy/converters.py", "src/coordinax/_interop/coordinax_interop_astropy/constructors.py",
   "src/coordinax/_interop/coordinax_interop_astropy/distance.py", S + "_interop/interop_astropy/frames.py"],
  [("registered conversions", "src/coordinax/_interop/coordinax_interop_astropy/converters.py")],
  ["plum.convert(vec, astropy class)", "Class.from_(astropy object)"])

p("C18", "A collection of vectors is transformed as a whole consistently",
  "Changing the representation or shape of a collection holding a position with its velocity and acceleration gives the collection whose members are the individually converted ones (velocities and accelerations at the collection's own position). Its members are found under any accepted name of their dimension, and giving one member twice under two names is refused.",
  ["inputs", "configurations"],
  "all component values x target representations x key spellings x shapes",
  "Tests convert one or two sample collections.",
  [V + "space/core.py", V + "space/compat.py", V + "transform/space.py"],
  [("collection transformation", V + "transform/space.py, space/core.py")],
  ["Space.represent_as", "Space(...)[key]"])

p("C19", "A space-time vector keeps the Minkowski interval and its parts",
  "A space-time vector reports the time, position and reference speed it was built from; its squared Minkowski norm is (c t)^2 - |q|^2 with the vector's own c, for every position representation and unit. Indexing, reshaping and negating act on time and position alike, and building it from four quantities (ct, x, y, z) and converting it back returns them.",
  ["inputs", "configurations"],
  "all times, positions and reference speeds x position representations x units x shapes",
  "Tests check single sample events with the default speed of light.",
  [V + "d4/spacetime.py", V + "d4/compat.py", V + "compat.py"],
  [("space-time vector", V + "d4/spacetime.py")],
  ["FourVector(...).t/.q/.c/.norm()/._norm2", "convert(FourVector, Quantity)"])

p("C20", "Constructors and converters agree on component order and units",
  "Building a vector from an array with a unit, from a quantity, from a mapping or from keywords puts the i-th value in the i-th coordinate with its unit, for every class and batch shape. Converting a Cartesian vector to a quantity stacks the coordinates on the last axis in that order with consistent units, building from that quantity returns the vector, and building a 3D position class from another 3D position equals converting the representation. Arrays with the wrong number of components and vectors the class cannot be built from are refused.",
  ["inputs", "configurations"],
  "all component values x vector classes x input forms x units x batch shapes",
  "Tests sample values for some classes.",
  [V + "base/base.py", V + "base/compat.py", V + "compat.py", V + "d1/cartesian.py", V + "dn/cartesian.py", V + "d3/constructor.py"],
  [("from_ dispatch", V + "base/base.py"), ("conversion to quantities", V + "compat.py")],
  ["Class.from_(...)", "convert(vec, Quantity)"])

p("C21", "The Poincare-polar form determines the planar phase-space point",
  "Converting a cylindrical position with its velocity to Poincare-polar coordinates and back returns the same position and velocity for every point with positive angular velocity (away from the axis), and the Poincare pair satisfies a^2 + b^2 = 2 rho^2 phi_dot with direction phi, independent of units.",
  ["inputs", "configurations"],
  "all phase-space points with rho > 0 and phi_dot > 0 x input representations x units",
  "There is one sample per direction in the docs.",
  [V + "dn/transform.py", V + "dn/poincare.py"],
  [("conversion formulas", V + "dn/transform.py")],
  ["represent_as(Space, PoincarePolarVector)", "represent_as(PoincarePolarVector, Space)"])

out = pathlib.Path(__file__).with_name("properties.jsonl")
out.write_text("".join(json.dumps(x) + "\n" for x in P))
ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids) and all(len(x["title"]) <= 80 for x in P)
print(len(P))
