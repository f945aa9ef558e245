#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is reviewable)."""
import json, os
I = "libs/mathlib/include/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe) or ["return values, output arguments and public members"],
        "hook_needed": None}})

prop("V01", "Vector arithmetic, products and norms equal their definitions",
 "For all finite 2-, 3- and 4-component vectors, in single and double precision, sums, differences, negation, scaling, division, component-wise product/minimum/maximum, dot and cross products, lengths, squared lengths, distances, component access and dimension conversions give the mathematically defined value up to rounding, and the in-place, copying and static forms of an operation agree. No operation changes an operand it was not asked to change, also when operand and destination are the same object.",
 ["inputs","histories"], "all finite component values whose squares neither overflow nor vanish, all API forms, both precisions, aliasing of operands, chains of operations on the same object",
 "test_vec*.cpp checks one or two hand-picked float vectors per operation; it says nothing about other values, double precision, aliasing or chains.",
 [I+"impl/vec2.h", I+"impl/vec3.h", I+"impl/vec4.h", I+"functions.h"],
 [("componentwise operators", I+"impl/vec3.h operator+ .. operator%"), ("Vec3::cross / Vec2 perp product", I+"impl/vec3.h")])
prop("V02", "Normalising, rotating and mirroring a vector keep its geometry",
 "Normalising any non-null vector yields a unit vector of the same direction and reports the former length, and leaves the null vector null; setting a length scales without turning. Rotating a vector by an angle (about an axis or coordinate axis, or in the plane) preserves its length and turns it by exactly that angle in the positive sense; mirroring negates exactly the chosen components. Measured angles between vectors agree with the rotation that takes one direction to the other.",
 ["inputs"], "all finite vectors whose squared length neither overflows nor vanishes (null vectors included), all axes, all angles, both precisions, in-place and copying forms",
 "Tests use a few axis-aligned vectors and special angles in float with a 1e-3 margin.",
 [I+"impl/vec2.h", I+"impl/vec3.h"],
 [("normalize/normalized", I+"impl/vec3.h"), ("rotate/rotated/angle", I+"impl/vec2.h, impl/vec3.h"), ("mirror/mirrored", I+"impl/vec3.h")])
prop("V03", "Vector interpolation goes from one vector to the other along the short way",
 "Interpolating between two vectors returns the first at ratio 0 and the second at ratio 1, blends lengths linearly, and for the angular forms turns in their common plane through the same fraction of the (at most half-turn) angle between them. The angle-limited forms turn towards the target by the smaller of the limit and the full angle and never overshoot.",
 ["inputs"], "all pairs of non-null vectors (any lengths, acute, obtuse, nearly opposite), all ratios in [0,1], all limits, both precisions; directions within about three degrees may be blended linearly, exactly opposite ones in any plane",
 "Tests only interpolate between the unit X and unit Y axes.",
 [I+"impl/vec2.h", I+"impl/vec3.h", I+"interpolation.h"],
 [("Vec2::lerp/clerp/clerpMaxAngle", I+"impl/vec2.h"), ("Vec3::lerp/slerp/slerpMaxAngle", I+"impl/vec3.h")])

prop("M01", "Matrix products, transposes, determinants and inverses obey matrix algebra",
 "For 2x2, 3x3, 3x4-affine and 4x4 matrices the product of two matrices applied to a vector equals applying the right factor first and then the left, scaling and negation act on every entry, transposition swaps rows and columns, and trace and determinant have their defined value. Inverting any well-conditioned non-singular matrix yields a matrix whose product with the original is the identity up to rounding, and inverting an exactly singular one yields the zero matrix; in-place and copying forms agree.",
 ["inputs","histories"], "all well-scaled matrices (identity, diagonal, orthonormal, sheared, general, singular), all pairs, all vectors, both precisions; a matrix orthonormal within the documented tolerance may be inverted as if it were exactly so, exactly singular ones are those where evaluation is exact (small integers)",
 "Tests multiply/invert a single example matrix per class; the optimised paths for identity and orthonormal matrices are not compared with the general path on other inputs.",
 [I+"impl/mat2.h", I+"impl/mat3.h", I+"impl/mat34.h", I+"impl/mat4.h"],
 [("multiply", I+"impl/mat*.h"), ("invert/inversed", I+"impl/mat*.h"), ("determinant", I+"impl/mat*.h")],
 [("flags","cached Normal/Orthogonal/Identity/Trs facts that select shortcuts", I+"mat3.h Flags")])
prop("M02", "Rotation matrices built from any description are that rotation",
 "A matrix built from an axis and angle, a coordinate axis and angle, a quaternion, or a pair of exact and approximate axes is orthonormal and right-handed, and applied to any vector gives the rotation described, in the positive sense; the exact axis is kept in direction and the approximate one stays in its half-plane. Building the same rotation by a different route (2x2, 3x3, 3x4 or 4x4 matrix, quaternion) gives the same action on vectors, and interpolating between two rotations starts at the first, ends at the second and stays a rotation on the shortest arc between them.",
 ["inputs"], "all non-null axes, all angles, all unit quaternions, all pairs of independent axes and coordinate choices, all ratios in [0,1], both precisions",
 "Tests use the Z axis with pi/3 and one or two axis pairs.",
 [I+"impl/mat2.h", I+"impl/mat3.h", I+"impl/mat34.h", I+"impl/mat4.h", I+"impl/quat.h"],
 [("set(axis, angle), set(Coord, angle), set(Quat), set(Coord,exact,Coord,approx)", I+"impl/mat3.h"), ("slerp/slerpMaxAngle", I+"impl/mat3.h")])
prop("M03", "What a matrix reports about itself is true after any history of operations",
 "Whenever a matrix reports that it is normal, orthogonal, orthonormal, identity or an affine (translate-rotate-scale) matrix, its entries have that property within the documented tolerance, whatever sequence of constructions, products, rotations, scalings, transpositions, casts and inversions produced it. Consequently no operation on it ever takes a shortcut that its entries do not justify. A matrix set from its axes, computed by an operation or explicitly analysed reports exactly the facts its entries satisfy.",
 ["histories","inputs"], "all finite sequences of public matrix operations from any start matrix, both precisions; documented tolerance: a squared error of 1e-3 for normal and orthogonal, rounding level for identity, or the tolerances given; a matrix constructed from a scalar may under-report until analysed",
 "Tests look at the flags only immediately after one construction; the flags are carried over by each operation, so errors appear only in multi-step histories.",
 [I+"impl/mat2.h", I+"impl/mat3.h", I+"impl/mat34.h", I+"impl/mat4.h"],
 [("optimize", I+"impl/mat*.h"), ("flags propagation in multiply/transpose/invert/scale/rotate", I+"impl/mat*.h")],
 [("flags","cached facts about the entries", I+"mat2.h, mat3.h, mat4.h")],
 ["isNormal/isOrthogonal/isOrthonormal/isIdentity/isTrs/isInitialized and the entries"])
prop("M04", "A history of transforms acts on points as the steps in order",
 "Starting from any affine transform or matrix, after any sequence of rotate, translate, scale and transform steps, applying the result to a point gives what applying the original and then each step in order gives; the 'pre' forms apply the new step before the existing transform instead. The copying form of each step leaves its object unchanged and returns what the in-place form would produce. Directions ignore translation, and transforming an array, with or without a stride and in place, equals transforming each element and touches nothing else.",
 ["histories","inputs"], "all sequences of transform steps from any start (translating and scaling a 4x4 matrix only while it is affine), all points, all array lengths and strides, both precisions",
 "Tests apply one step to one matrix; order mistakes, shortcuts and composition errors show up only with two or more non-commuting steps or a non-trivial start.",
 [I+"impl/mat2.h", I+"impl/mat3.h", I+"impl/mat34.h", I+"impl/mat4.h"],
 [("rotate/translate/scale/transform and *Pre", I+"impl/mat34.h, impl/mat4.h"), ("transform/transformVector array forms", I+"impl/mat*.h")])

prop("Q01", "Unit quaternions form the rotation group",
 "For unit quaternions, rotating a vector by a product equals rotating by the right factor and then by the left one, the inverse undoes the rotation, dividing by a quaternion is multiplying by its inverse, and the rotation agrees with that of the corresponding matrix. Converting to axis and angle or to a matrix and back gives the same rotation, the quaternion between two directions carries the first onto the second, and normalising gives a unit quaternion along the original one.",
 ["inputs"], "all unit quaternions including half-turns and near-identity ones, all vectors, all axis/angle pairs, all pairs of directions, both precisions",
 "Tests only use rotations about Z and do not test multiplication, division, inversion or rotation of vectors at all.",
 [I+"impl/quat.h", I+"impl/mat3.h"],
 [("operator*, operator/, inverse, rotated", I+"impl/quat.h"), ("set(Mat3), toAxisAngle, set(axis,angle), set(from,to)", I+"impl/quat.h")])
prop("Q02", "Quaternion interpolation is the constant-speed shortest rotation",
 "Interpolating between two unit quaternions always yields a unit quaternion, is the first rotation at weight 0 and the second at weight 1, and for the spherical form turns by the same fraction of the shortest rotation between them; the non-inverting form does so along the arc between the two quaternions as given. The angle-limited form turns from the first towards the second by at most the limit and reaches the second when the limit allows. The cubic form runs from the first to the second along the blend of the outer and inner arcs.",
 ["inputs"], "all pairs of unit quaternions (same or opposite hemisphere, near-equal, near-opposite), all weights in [0,1] and all limits, both precisions; close quaternions (dot product above 0.95) may be blended linearly, opposite ones along any great arc",
 "Tests interpolate only from the identity to one Z rotation, so anything that depends on the first operand is invisible.",
 [I+"impl/quat.h"],
 [("lerp/slerp/slerpNoInvert/slerpMaxAngle/squad", I+"impl/quat.h")])

prop("I01", "Easing curves join their ends monotonically; blends hit both end values",
 "Every easing mode maps ratios at or below 0 to 0 and at or above 1 to 1, stays within [0,1] and never decreases in between, follows its named curve, and its in/out and in-out forms are mirror images of each other, up to rounding of the documented constants. Blending two scalars, integers or vectors with any ratio and mode returns the start at 0, the end at 1 and the proportional value between.",
 ["inputs"], "all modes, all ratios (also outside [0,1]), all end values, both precisions",
 "Tests sample each mode at a few ratios in one precision; monotonicity and symmetry quantify over all ratios.",
 [I+"interpolation.h"], [("interpolationRatio", I+"interpolation.h"), ("lerp overloads", I+"interpolation.h")])
prop("I02", "Circular interpolation takes the shortest way round for all angles",
 "Interpolating between two angles returns the start angle at ratio 0, an angle equivalent to the target at ratio 1, and in between turns in proportion along the way that is at most half a turn, for angles of any sign and number of turns. The limited form turns by at most the limit, and reports the fraction of the whole turn it performed.",
 ["inputs"], "all pairs of finite angles (any sign, many turns apart), all ratios and non-negative limits, both precisions",
 "Tests always start at 0 and end at pi or 3pi/2; differences below -pi and non-zero starts are never tried.",
 [I+"interpolation.h"], [("clerp/clerpMaxAngle", I+"interpolation.h")])
prop("S01", "Scalar helpers stay in their documented range and value",
 "Clamping, minimum, maximum and absolute value return the defined operand, degree and radian conversions are inverse to each other, arc sine and cosine accept slightly out-of-range arguments by saturating, and cyclic remainders lie in their documented interval and are congruent to the argument. Controller response curves are odd, zero within the dead zone, one at full deflection, and never decrease. Random helpers stay within their bounds, amplitudes take both signs.",
 ["inputs"], "all finite arguments, all curve types, dead zones in [0,1), all random bounds, any point of the generator sequence, both precisions",
 "Tests cover a handful of constants; range and parity are statements about all arguments.",
 [I+"functions.h", I+"impl/constants.h"], [("fmodPositive/fmodCentered", I+"functions.h"), ("evaluate", I+"functions.h"), ("rand*", I+"functions.h")])

prop("B01", "Boxes are sets of points: enclosing, merging and overlap are exact",
 "In 2D and 3D a corner-defined or centre-defined box built from points is the smallest box containing all of them, merging gives the smallest box containing both, and a sequence of merged points or boxes gives the same box in any order. Containment and overlap tests answer exactly as the point sets do (boundary included). The overlap box is exactly the common part, the zero box when there is none, and a box is null exactly when its size is zero.",
 ["histories","inputs"], "all boxes and points, all orders and lengths of accumulation, any memory stride of the input arrays, touching and degenerate boxes, both precisions",
 "Tests use one unit box and a few offsets; order independence, minimality and boundary cases are universally quantified.",
 [I+"impl/aabb2.h", I+"impl/aabb3.h", I+"impl/caabb2.h", I+"impl/caabb3.h"],
 [("set(points, n, stride), accumulate, contains, intersects, intersection", I+"impl/aabb2.h, impl/aabb3.h, impl/caabb2.h, impl/caabb3.h")],
 [("inf/sup or center/halfsize","box extent", I+"aabb2.h, caabb2.h")])
prop("B02", "Box measures, corners and transforms describe the same box",
 "Centre, size, half size, volume or area, corner points and unit-coordinate mapping of a box agree with its extent, and converting between the corner form and the centre form keeps the box. Moving or scaling a box by non-negative factors (about its centre) moves or scales exactly that extent. In-place and copying forms agree.",
 ["inputs","histories"], "all valid boxes, offsets, scale factors and unit coordinates ([0,1] for the corner form, [-1,1] for the centre form), both precisions and dimensions",
 "Tests check one symmetric box, where many mix-ups (minimum for maximum, one axis for another) are invisible.",
 [I+"impl/aabb2.h", I+"impl/aabb3.h", I+"impl/caabb2.h", I+"impl/caabb3.h"],
 [("center/size/halfSize/corner/translate/scale/conversions", I+"impl/aabb3.h, impl/caabb3.h")])
prop("B03", "A ray or segment hits a box exactly when it enters it",
 "Testing a ray or a segment against a box succeeds exactly when it starts outside and reaches the box (for a segment, before its end), and then reports the first parameter and point at which it touches the box. A ray or segment that misses the box, points away from it, ends before it or starts strictly inside it reports no hit. The interval query reports exactly the part of the ray or segment inside the box, clamped to its range.",
 ["inputs"], "all valid boxes in 2D and 3D, all ray and segment positions and directions including axis-parallel ones, both precisions; contacts decided only by rounding and starts exactly on the boundary may be reported either way",
 "Tests only use directions along an axis or exactly diagonal through a centred box; oblique misses are never tried.",
 [I+"impl/aabb2.h", I+"impl/aabb3.h", I+"impl/caabb2.h", I+"impl/caabb3.h"],
 [("hits", I+"impl/aabb2.h, impl/aabb3.h")])
prop("C01", "Circles and spheres: enclosing, containment, overlap and hits are correct",
 "A point, circle or sphere is inside exactly when all its points are within the radius of the centre, and overlap tests are symmetric, true exactly when the two share a point, and report the facing contact point and depth. Measures follow from the radius, moving or scaling acts on centre and radius, and a circle or sphere from points is centred on the bounding box of the points and reaches the furthest. Intersecting with a segment that starts outside reports the first touching point and its parameter, exactly when there is one in range, and the query alone gives the same answer as the query that reports the point.",
 ["inputs","histories"], "all circles and spheres with non-negative radius, points and segments, both precisions, in-place and copying forms; contacts decided only by rounding may be reported either way",
 "Tests use a unit circle/sphere at the origin with axis-aligned queries.",
 [I+"impl/circle.h", I+"impl/sphere.h"], [("contains/intersects", I+"impl/circle.h, impl/sphere.h")])
prop("G01", "Planes: distances, projections, intersections and sides are consistent",
 "A plane built from a normal and offset, a point and normal, three points, tangents or parallel to another contains those points, its normal is a unit vector on the documented side, and the signed distance of any point equals its offset along the normal; moving and flipping act accordingly. Projecting a point gives the point of the plane reached along the normal or the given direction. Ray and segment hits are passages from the front to the back side, intersections are crossings either way, spheres hit by their nearest side, and triples of planes meet in a common point of all three or report that none exists.",
 ["inputs"], "all planes (any normal and offset), points, directions, rays, segments, spheres and plane triples in general and parallel position, planes and axes read from affine matrices, both precisions; triples within 1e-4 of linear dependence are free",
 "Tests use coordinate planes through or near the origin, where the offset or the direction does not matter.",
 [I+"impl/plane.h"], [("set, distance, project, intersect(s), flip", I+"impl/plane.h")])
prop("G02", "Lines, rays and triangles: points, distances and containment agree",
 "The point at parameter t of a segment or ray is start plus t times its extent, lengths and directions agree with the end points, construction forms agree, and the distance of a point is that to the carrying line. A point is reported inside a 2D triangle exactly when it is a convex combination of its corners, for either orientation of the corners.",
 ["inputs"], "all segments, rays, points, and triangles of non-zero area, both orientations and precisions",
 "Tests use one segment/triangle each.",
 [I+"impl/line2.h", I+"impl/line3.h", I+"impl/ray2.h", I+"impl/ray3.h", I+"impl/tri2.h"],
 [("pointAt/length/contains", I+"impl/line3.h, impl/ray3.h, impl/tri2.h")])
prop("F01", "A frustum never loses a point or sphere that it touches",
 "A point is inside a frustum exactly when it is within its depth range and side planes, for any placement of the viewer. A sphere sharing any point with the frustum is always reported as intersecting it, and one lying wholly outside one of its planes is always reported as not intersecting.",
 ["inputs"], "all depth ranges, near and far rectangles and placements by orientation-preserving affine matrices, all points and spheres, both precisions",
 "Tests use one frustum at the origin and a few points.",
 [I+"impl/frustum.h"], [("set/contains/intersects", I+"impl/frustum.h")])
prop("L01", "Linear solvers return the solution or report that there is none",
 "When a tridiagonal, cyclic tridiagonal or dense solver reports success, its result is finite and substituting it into the original system gives the right-hand side up to conditioning, for scalar and vector right-hand sides, and the dense solver also replaces the matrix with its inverse. For a singular dense or cyclic matrix and for an unpivotable tridiagonal system it reports failure. Inputs declared read-only are unchanged and nothing outside the arrays is touched.",
 ["inputs"], "all sizes (cyclic systems from three unknowns), all well-conditioned systems and those singular for certain (elimination in exact arithmetic), any number of right-hand sides, any required pivot order, both precisions",
 "Tests solve one fixed system per solver; pivot orders and sizes are a combinatorial space.",
 [I+"impl/linearequations.h"], [("TriDiagonal::solve/solveCyclic, GaussJordan::solve", I+"impl/linearequations.h")],
 [("ipiv/indxr/indxc","pivot bookkeeping during elimination", I+"impl/linearequations.h")])
prop("P01", "Spline segments, their tangents, splits and stepping describe one curve",
 "A Hermite or Bezier segment starts and ends at its end points with the given end tangents, its weights sum to one, and its tangent is the derivative of its position at every parameter. Splitting a segment anywhere yields two segments that retrace it, and forward stepping n times by d gives the position and tangent at parameter n times d. The length estimate is the length of the polyline of equal parameter steps, and the moving frame is orthonormal with the tangent as its second axis, reported missing where the curve is straight or still.",
 ["inputs","histories"], "all control points, all parameters in [0,1], all split points, all step sizes and numbers of steps, both precisions",
 "Tests evaluate one curve at a few parameters.",
 [I+"impl/spline3.h"], [("pointAt/tangentAt/split/length/frenetFrameAt, forward differences", I+"impl/spline3.h")],
 [("P,dP,d2P,d3P,T,dT,d2T","forward difference registers", I+"spline3.h")])
prop("P02", "Solved splines pass through their points with continuous derivatives",
 "Fitting a spline through any sequence of points (natural, clamped or closed) yields segments that join at those points with equal first and second derivatives on both sides. A natural spline has zero second derivative at both ends, a clamped one uses exactly the given end controls, a closed one is also smooth where it closes, and nothing outside the output arrays is written.",
 ["inputs"], "all point sequences of length two or more, all end controls, both precisions",
 "Tests use one short point list; continuity at every joint for all n is universally quantified.",
 [I+"impl/spline3.h", I+"impl/linearequations.h"], [("SplineSolver3", I+"impl/spline3.h")])
prop("K01", "Colours convert, blend and combine without drift",
 "Converting any RGB colour in the unit cube to hue, saturation and value and back returns the colour, hue lies in [0,360), and any hue, however many turns away and however small, converts to a colour in the unit cube. Blending returns the first colour at 0 and the second at 1 and takes hue the short way round. Arithmetic acts on the colour channels only and never on opacity, blending acts on opacity too, and integer channels map 0..255 to 0..1.",
 ["inputs"], "all colours, hues of any sign and size (exact half-turns either way), opacities, ratios, both precisions, in-place and copying forms",
 "Tests convert the primary colours and a few mixes.",
 [I+"impl/colorrgb.h", I+"impl/colorrgba.h", I+"impl/colorhsv.h"], [("toHSV/toRGB/interp/operators", I+"impl/colorrgb.h, impl/colorhsv.h")])
prop("T01", "Comparison, casting and raw access expose exactly the stored components",
 "Equality of two values of any type that offers it holds exactly when all their components are equal and inequality is its negation, converting between precisions converts each component, and raw data access shows the components in declaration order. The approximate test matchers accept a value exactly when every component is within the margin of the target.",
 ["inputs"], "all types, all component values, differences in any single component, all margins, both precisions; rays keep unit directions, so converting one may renormalise",
 "Tests compare a value with itself or with one clearly different value, so a forgotten component is invisible.",
 [I+"impl/vec4.h", I+"impl/mat4.h", I+"impl/aabb3.h", "libs/testlib/include/impl/catch_matchers.h"],
 [("operator==/!=/cast/data", I+"impl/*.h"), ("marginCheck", "libs/testlib/include/impl/catch_matchers.h")])
prop("T02", "Test messages show what was compared, complete and in order",
 "The text the test helpers give for a value lists its components (of a frustum, its corners) in declaration order and nothing else: vectors, colours, quaternions and shapes so that they read back exactly, matrices and frusta to five significant digits. The description of an approximate matcher names its margin and its target the same way, and a negative margin is refused.",
 ["inputs"], "all types with matchers, all finite component values, all margins, both precisions",
 "The text is only seen when a test fails; the suite never reads it.",
 ["libs/testlib/include/impl/catch_matchers_vec3.h", "libs/testlib/include/impl/catch_matchers_mat34.h", "libs/testlib/include/impl/catch_matchers_frustum.h"],
 [("StringMaker::convert, describe", "libs/testlib/include/impl/catch_matchers_*.h")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
