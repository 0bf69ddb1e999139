#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
H = "libs/mathlib/include/"
I = "libs/mathlib/include/impl/"
P = []

def prop(id, title, statement, text, why, files, mech, state=(), observe=(), over=("inputs",)):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "Vector arithmetic is component-wise linear algebra in 2, 3 and 4 dimensions",
     "For all vectors and scalars, addition, subtraction, negation, scalar product and quotient, component product, dot product, cross product (also with a coordinate axis), min, max and comparison give the mathematical result up to rounding. Every compound assignment or in-place form yields the same value as its copying counterpart, also when an operand is the vector itself. Construction, set, moved, conversion between dimensions, access by coordinate, data() and cast() expose the same components in x, y, z, w order.",
     "all real component values and scalars (divisor non-zero), every coordinate selector, self-aliasing",
     "tests sample a handful of constant vectors; the claims are identities over all reals and all aliasings",
     [I+"vec2.h", I+"vec3.h", I+"vec4.h", H+"functions.h"],
     [("operators", I+"vec3.h"), ("conversions", I+"vec2.h")])

prop("C02", "Length, distance and normalisation of vectors",
     "lengthSqr is the dot product of a vector with itself, length its square root, and distance the length of the difference. Normalising a non-zero vector to length k (default 1) gives the parallel vector whose length is k (for k > 0), returns the old length from the in-place form, and agrees between in-place and copying forms. Normalising the zero vector gives the zero vector, never a division by zero.",
     "all vectors including zero, all target lengths",
     "unit length and parallelism are identities over all inputs; tests try a few Pythagorean triples",
     [I+"vec2.h", I+"vec3.h", I+"vec4.h", H+"functions.h"],
     [("normalize", I+"vec3.h"), ("distance", H+"functions.h")])

prop("C03", "Rotating, mirroring and angle-interpolating vectors",
     "rotate/rotated turn a 2D or 3D vector by the given angle about the given axis counter-clockwise: length is preserved, consecutive rotations add their angles, quarter-turn helpers equal rotation by 90, 180 and 270 degrees, and a mirror is an involution negating exactly the chosen component. fromAngle and angle are inverse, and in-place and copying forms agree. clerp and slerp return the end vectors at ratio 0 and 1 and otherwise a vector whose length is the linear interpolation of both lengths and whose direction lies on the shorter arc between them, at the ratio's fraction of the angle (3D vectors less than about 3 degrees apart may be interpolated linearly, exactly opposite ones turn about any perpendicular axis); the maximum-angle forms never turn by more than the maximum.",
     "all vectors, angles, ratios in [0,1], maximum angles >= 0",
     "tests use multiples of 30 or 45 degrees; direction errors appear only in particular quadrants or beyond particular angles",
     [I+"vec2.h", I+"vec3.h", H+"interpolation.h"],
     [("Vec3::rotate", I+"vec3.h"), ("Vec3::slerp", I+"vec3.h"), ("clerp", H+"interpolation.h")])

prop("C04", "Component selection: major/minor coordinate, min, max and clamp are exact",
     "majorCoord names a component of greatest absolute value and minorCoord one of least absolute value, for every vector of finite components. min and max return the least and greatest of their arguments, and clamp returns the value itself inside the range and the nearer bound outside it, bit for bit. Vector min and max do so component by component.",
     "every bit pattern of finite floating-point arguments, in single and double precision",
     "ties, signed zeros and near-equal values are not sampled by tests; bit-exact over all of IEEE-754",
     [I+"vec2.h", I+"vec3.h", I+"vec4.h", H+"functions.h"],
     [("majorCoord", I+"vec3.h"), ("minmax", H+"functions.h")])

prop("C05", "Matrix product is composition of linear maps",
     "For Mat2, Mat3, Mat34 and Mat4, applying a product to a vector equals applying the right factor and then the left one, every product entry is the row-by-column sum, and vector-times-matrix applies the transpose. rotate/transform place the new map after the existing one and rotatePre/transformPre before it; scaling multiplies the columns of a Mat4 or Mat34 (and the translation component-wise), translating and scalar operations have their stated effect; in-place and copying forms agree, also when a matrix is its own operand. data() exposes the entries column by column and cast() converts each of them. Matrices classified as identity are the only ones for which a product may be shortened, within the documented tolerance.",
     "all real entries, every operand being general, identity, rotation or zero, and every aliasing of operands",
     "identities over all real matrices and every combination of cached classification; tests multiply fixed matrices",
     [I+"mat2.h", I+"mat3.h", I+"mat34.h", I+"mat4.h"],
     [("multiply", I+"mat3.h"), ("multiply", I+"mat4.h"), ("transform", I+"mat34.h")],
     [("flags", "cached classification used to shorten products", I+"mat3.h")])

prop("C06", "Inverse, determinant, adjoint and transpose of matrices",
     "Whenever a matrix is invertible, its inverse times the matrix and the matrix times its inverse are the identity, for Mat2, Mat3, Mat34 and Mat4 and for both the in-place and the copying form. The determinant is multiplicative and equals the signed volume; matrix times adjoint is determinant times identity; transposing exchanges rows and columns, is an involution, and reverses products. A singular matrix gives the zero matrix instead of a division by zero. A matrix classified orthonormal or identity may be inverted as one, which is accurate to the classification tolerance.",
     "all real entries: general, rotation, rigid with translation, affine, projective, singular",
     "the fast paths for rotations and rigid transforms are taken on particular classifications only; tests invert a few constants",
     [I+"mat2.h", I+"mat3.h", I+"mat34.h", I+"mat4.h"],
     [("inversed", I+"mat3.h"), ("inversed", I+"mat4.h"), ("adjoint", I+"mat3.h")])

prop("C07", "Cached matrix classification is truthful after every operation",
     "After any construction, assignment, product, scaling, rotation, transposition or inversion, a matrix that reports itself normal, orthogonal, orthonormal, identity or TRS really has that shape within the documented tolerance, judged by its current entries. Consequently no sequence of operations can make a later product, inverse or transform differ from the one computed from the entries alone. Only a default-constructed matrix reports itself uninitialized, until it is set or classified.",
     "all matrices with truthful classification, all single operations from them (inductive step), all two-step histories ending in an inverse or product",
     "stale classification shows only after particular sequences of operations, and then only in a later product or inverse",
     [I+"mat2.h", I+"mat3.h", I+"mat34.h", I+"mat4.h"],
     [("optimize", I+"mat3.h"), ("isNormal/isOrthogonal/isIdentity", I+"mat3.h"), ("optimize", I+"mat4.h")],
     [("flags", "cached classification", H+"mat3.h")], over=("inputs", "histories"))

prop("C08", "Bulk matrix transforms equal the single transform, element by element",
     "Transforming an array of vectors, contiguous or strided, writes to each destination exactly what transforming that source alone would give, reads and writes only the addressed elements, and leaves everything between them and after them untouched. It holds for every matrix class, for count zero, and when source and destination are the same array.",
     "all matrices and vectors, counts 0 to 25, several strides including zero for the source, in-place and out-of-place",
     "tests transform one or two fixed vectors; overrun and alias errors depend on stride and count",
     [I+"mat2.h", I+"mat3.h", I+"mat34.h", I+"mat4.h"],
     [("transform (array)", I+"mat3.h"), ("transform (array)", I+"mat4.h")])

prop("C09", "Rotation matrices built from axis and angle or from frames are rotations",
     "A Mat2, Mat3, Mat34 or Mat4 rotation built from an angle with a coordinate axis or with an arbitrary axis is orthonormal with determinant one, leaves its axis fixed, turns perpendicular vectors counter-clockwise by exactly that angle, and agrees with rotating the vector or the quaternion directly. A frame built from an exact and an approximate axis is orthonormal and right-handed, has the exact axis direction on the requested coordinate and keeps the approximate axis on its own side within their common plane; without two directions it is the identity. Orthonormalising yields a rotation and leaves a rotation as it is; in the plane it keeps the first direction.",
     "all axes (non-zero), all angles, every pair of coordinates, all non-parallel exact/approximate pairs",
     "tests check a few angles and axes; sign and handedness errors can hide in one coordinate pair",
     [I+"mat2.h", I+"mat3.h", I+"mat4.h"],
     [("set(axis, angle)", I+"mat3.h"), ("set(ecoord, exact, acoord, approx)", I+"mat3.h")])

prop("C10", "Quaternion algebra and its action on vectors",
     "Quaternion product is associative, multiplies norms, and composes rotations: rotating by a product equals rotating by one factor and then by the other, in the order of the matrix product. Conjugate and inverse undo a quaternion, division multiplies by the inverse, and rotating a vector by a unit quaternion preserves lengths and dot products. In-place and copying forms, including rotate and rotatePre, agree.",
     "all quaternions (unit ones where a rotation is meant) and all vectors",
     "sign errors in a single product term survive sampled tests with zero components",
     [I+"quat.h"],
     [("operator*", I+"quat.h"), ("rotated", I+"quat.h"), ("operator/", I+"quat.h")])

prop("C11", "Rotation conversions: quaternion, matrix and axis-angle round trips",
     "A unit quaternion and the matrix built from it rotate every vector identically; converting a rotation matrix to a quaternion and back gives the same matrix, whatever branch is taken. Converting axis and angle to a quaternion and back gives the same rotation. The rotation from one direction to another carries the first onto the second, also for opposite directions.",
     "all unit quaternions, all rotation matrices, all axes and angles, all pairs of non-zero directions",
     "the matrix-to-quaternion branch with negative trace depends on which diagonal entry is greatest; tests reach some branches with fixed numbers",
     [I+"quat.h", I+"mat3.h", I+"mat4.h"],
     [("set(Mat3)", I+"quat.h"), ("set(from, to)", I+"quat.h"), ("toAxisAngle", I+"quat.h")])

prop("C12", "Interpolating rotations: lerp, slerp, maximum angle, exp and log",
     "Interpolating unit quaternions or rotation matrices returns the ends at ratio 0 and 1 (as rotations), a unit quaternion or a rotation in between, and for slerp the rotation about the common axis by that fraction of the angle, along the shorter arc (slerpNoInvert: along the arc between the quaternions as given; pairs with a dot product of at least 0.95 are interpolated along their normalized chord). The maximum-angle form ends at the target when it is near enough and otherwise turns from the start by exactly the maximum. exp and log of a unit quaternion are inverse of each other, and the spherical quadrangle and its inner control rotation are slerp(slerp(from, to, t), slerp(a, b, t), 2t(1-t)) and via exp(-(log(via^-1 from) + log(via^-1 to)) / 4).",
     "all pairs of unit quaternions, ratios in [0,1], maximum angles >= 0",
     "errors appear only for obtuse pairs, near-parallel pairs, or non-trivial starting rotations",
     [I+"quat.h", I+"mat3.h", I+"mat34.h", I+"mat4.h"],
     [("slerp", I+"quat.h"), ("slerpMaxAngle", I+"quat.h"), ("log/exp", I+"quat.h")])

prop("C13", "Bounding boxes obey set semantics",
     "A 2D or 3D box contains exactly the points between its bounds; the union or extension contains both operands and is the least such box; the intersection of boxes that meet contains a point exactly when both operands do (that of boxes that do not meet is the null box Zero); boxes report intersecting exactly when they share a point and containing exactly when every point of one is in the other. Centre, size, corner, surface and volume accessors, scaling, translation and point parametrisation describe that same set. In-place and copying forms agree, and all relations are bit-exact.",
     "all boxes with ordered bounds and all points, in single and double precision",
     "touching, nested, disjoint and degenerate configurations per axis multiply beyond what tests enumerate",
     [I+"aabb2.h", I+"aabb3.h"],
     [("contains/intersects", I+"aabb3.h"), ("fromIntersection", I+"aabb3.h")])

prop("C14", "Centred boxes agree with bound-based boxes",
     "A centred 2D or 3D box and the bound-based box converted from it describe the same set of points, and converting there and back changes nothing, up to rounding. Containment, intersection, union, extension, scaling, translation and point parametrisation on centred boxes give the same set as the same operation on bound-based boxes.",
     "all boxes with non-negative extents, all points",
     "two representations of one notion are compared over all inputs; tests check constants on each separately",
     [I+"caabb2.h", I+"caabb3.h", I+"aabb2.h", I+"aabb3.h"],
     [("conversions", I+"caabb3.h"), ("contains/intersects", I+"caabb3.h")])

prop("C15", "Ray and line tests against bounding boxes",
     "A ray or line is reported to intersect a box exactly when some point of it (for a ray, at non-negative parameter; for a line, between its ends) lies in the box, also when it starts inside, runs parallel to a side, or has zero direction components; it is reported to hit the box exactly when it enters it from outside. The reported entry and exit parameters give points on the box surface with the whole segment between them inside the box.",
     "all boxes, origins and directions",
     "slab tests go wrong only for particular sign combinations and start positions",
     [I+"aabb2.h", I+"aabb3.h"],
     [("hits/intersects", I+"aabb3.h")])

prop("C16", "Circles and spheres: containment, intersection, bounding, ray tests",
     "A circle or sphere contains exactly the points within radius of its centre; two of them, or one and a box, are reported as contained or intersecting exactly when the point sets are; bounding shapes contain all given points or shapes. Ray and line tests report a hit exactly when the path enters the shape, with the hit parameter giving a point on the surface. Translation and scaling move and scale that set, and in-place and copying forms agree.",
     "all centres, non-negative radii, points, boxes, origins and directions",
     "tangent, nested and outside-the-face configurations are rarely sampled",
     [I+"circle.h", I+"sphere.h"],
     [("contains/intersects/hits", I+"sphere.h")])

prop("C17", "Planes: construction, distance, projection and intersection",
     "A plane built from points or from a normal and a point contains those points, has a unit normal, and reports signed distance along that normal. Projecting a point gives the nearest point of the plane, or the point along the requested direction that lies in the plane. Line, ray and sphere tests agree with the signed distances, a reported parameter gives a point on the plane, and the intersection of three planes, when reported, lies on all three. The local axes and planes of a transformation pass through its origin along its columns.",
     "all planes with unit normal, all points and directions, all triples of planes",
     "identities over all planes; tests use axis-aligned planes through the origin",
     [I+"plane.h"],
     [("project", I+"plane.h"), ("intersectAtSinglePoint", I+"plane.h")])

prop("C18", "Lines and rays: parametrisation, distance and 2D intersection",
     "The point at parameter t of a line or ray is start plus t times direction or span; the distance to a point is the length to the nearest point, of the carrier line for a line (of its start when it is null) and of the half line for a ray, so never behind its start. The 2D intersection of two segments' carrier lines, when reported, gives parameters that denote the same point on both, and none is reported exactly when they are parallel.",
     "all lines, rays, points; direction normalised or not as the class states",
     "collinear, behind-the-start and parallel cases are particular; nearest-point minimality quantifies over all parameters",
     [I+"line2.h", I+"line3.h", I+"ray2.h", I+"ray3.h", I+"vec2.h"],
     [("distance", I+"line3.h"), ("intersection", I+"vec2.h")])

prop("C19", "Triangle and frustum containment",
     "A non-degenerate 2D triangle contains exactly the convex combinations of its corners, whatever their orientation. A frustum contains a point or a sphere exactly when it is on the inner side of all six planes by the required margin, and never rejects as non-intersecting a sphere or point that shares a point with it.",
     "all triangles of both orientations, all convex frusta given by eight corners, all points and radii",
     "orientation, edge and corner regions multiply; tests use one triangle and one frustum",
     [I+"tri2.h", I+"frustum.h"],
     [("contains", I+"tri2.h"), ("contains/intersects", I+"frustum.h")])

prop("C20", "Cubic curve segments: evaluation, derivatives, splitting, stepping",
     "A Bezier segment starts and ends at its end points, lies on the Bernstein combination of its control points, and its first and second derivatives are those of that curve; a Hermite segment meets both end points and tangents, and converting between the two changes no point. Splitting at a parameter gives two segments that trace the original, and forward differencing visits exactly the points of uniform subdivision. The moving frame exists where the curve bends and is orthonormal with its tangent along the derivative and its binormal along the cross product of first and second derivative. Setting a segment from its own control points, or splitting it into itself, works as with separate objects.",
     "all control points, all parameters, small step counts",
     "polynomial identities over all control points and parameters; tests sample a few values",
     [I+"spline3.h"],
     [("evaluate/split", I+"spline3.h"), ("forward differencing", I+"spline3.h")])

prop("C21", "Spline solver interpolates and joins smoothly",
     "For every number of points supported and every end condition, the generated Bezier chain passes through the given points in order and neighbouring segments agree in first and second derivative. The end condition asked for (free, clamped tangent or closed) holds at the ends, and the input points are unchanged. Working storage is released exactly once, and nothing outside the arrays passed in is touched. If the solver reports failure nothing else is claimed.",
     "all point coordinates, 2 to 16 points, every end condition",
     "C2 continuity is an identity over all points and depends on the point count",
     [I+"spline3.h", I+"linearequations.h"],
     [("SplineSolver3", I+"spline3.h")])

prop("C22", "Linear solvers return only true solutions",
     "Whenever the tri-diagonal, cyclic tri-diagonal or Gauss-Jordan solver reports success, the returned vector satisfies every equation of the system passed in, up to rounding; a reported inverse is the inverse. Every system that is regular and meets the documented pivot conditions is reported as solved, a singular one is not reported as solved, and inputs declared constant are unchanged. No solver touches memory outside the arrays passed in, and working storage is released exactly once on every way out, failure included.",
     "all coefficients and right-hand sides, dimension 1 to 4; larger systems (up to 24 unknowns, Gauss-Jordan up to 9) with all right-hand sides and fixed or few varying coefficients",
     "pivot order, wrap-around coefficients and singularity depend on values and size; tests solve a few systems",
     [I+"linearequations.h"],
     [("TriDiagonal", I+"linearequations.h"), ("GaussJordan", I+"linearequations.h")])

prop("C23", "RGB and RGBA colours: arithmetic, packing, interpolation",
     "Colour arithmetic is component-wise, with in-place and copying forms agreeing and both leaving the left operand's alpha alone. An 8-bit channel c becomes c/255, so that scaling by 255 and rounding returns every channel; construction and data order are red, green, blue, alpha; interpolation is linear per channel (alpha included), stays between its ends and reaches them exactly at ratio 0 and 1, also in place; random colours have channels in [0,1].",
     "all channel values, all 256 byte values per channel, all ratios",
     "byte round trip must hold for each value, arithmetic for all reals",
     [I+"colorrgb.h", I+"colorrgba.h"],
     [("ColorRGB", I+"colorrgb.h"), ("ColorRGBA", I+"colorrgba.h")])

prop("C24", "HSV colours: conversion to and from RGB",
     "Converting an RGB colour with channels in [0,1] to HSV and back returns the same colour, and an HSV colour of any hue converts to an RGB colour whose channels are all written and lie between 0 and its value; hue is periodic in 360 degrees. Value is the greatest channel, saturation is in [0,1], hue in [0,360). Interpolation between hues in [0,360) follows the shorter way around the hue circle and reaches its ends at ratio 0 and 1.",
     "all colours in range, all finite hues including negative and huge ones, all ratios",
     "hue sectors and their borders, and rounding of tiny negative hues, are not sampled by tests",
     [I+"colorhsv.h", I+"colorrgb.h", H+"functions.h"],
     [("toRGB/toHSV", I+"colorhsv.h")])

prop("C25", "Scalar helpers: modulo, angles, saturating trigonometry, random, response",
     "The positive modulo lies in [0,y) and differs from x by a multiple of y, the centred one lies in [-y/2,y/2), degree and radian conversions are inverse, and asin/acos accept every argument by saturating outside [-1,1]. Random helpers return values within the stated range whatever the generator yields. Response-curve evaluation is zero inside the dead zone, keeps sign, stays within [-1,1], reaches plus or minus one at full deflection and never decreases.",
     "all finite arguments, all generator outputs, every response curve",
     "range guarantees quantify over all values incl. rounding near the bounds",
     [H+"functions.h", I+"constants.h"],
     [("fmodPositive", H+"functions.h"), ("evaluate", H+"functions.h")])

prop("C26", "Easing functions run from 0 to 1 and join continuously",
     "Every interpolation mode maps ratios at or below 0 to 0 and at or above 1 to 1, stays within [0,1], never decreases, and follows the curve its name implies (power, sine, circle, exponential); two-part modes join at one half, out is in reversed, and in-out is in followed by out, each at half scale. lerp with a mode equals lerp at the mapped ratio, and lerp and circular lerp reach both ends; circular lerp and its maximum-angle form move along the shorter way and never by more than the maximum.",
     "all ratios, every mode, all end values and angles",
     "monotonicity and continuity quantify over all ratios; tests sample a few",
     [H+"interpolation.h"],
     [("interpolationRatio", H+"interpolation.h"), ("clerp", H+"interpolation.h")])

prop("C27", "Double-precision instantiations compute in double precision",
     "Every operation instantiated for double gives results whose error is of double-precision rounding, never of single precision: no intermediate value passes through a narrower type.",
     "all operations of the library, all inputs",
     "tests compare with tolerances of single precision",
     [H+"functions.h", H+"interpolation.h", I+"frustum.h", I+"linearequations.h"],
     [("templates on Real", H+"common.h")])

def main():
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")

if __name__ == "__main__":
    main()
