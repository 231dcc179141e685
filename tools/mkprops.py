import json
core='crates/cglinalg_core/src/'; tf='crates/cglinalg_transform/src/'; tr='crates/cglinalg_trigonometry/src/lib.rs'; nu='crates/cglinalg_numeric/src/lib.rs'
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
p('C01','Type-level dimension arithmetic and ordering are exact',
 'Whenever the dimension calculus accepts a sum, difference or product of two dimensions, the result dimension it produces is exactly that sum, difference (only when non-negative) or product; whenever it accepts "M is less than N", M < N holds. All sums and products of dimensions 1..4, all differences 1 <= N <= M <= 4 and all strict orderings within 0..4 are accepted. No other relation (a reversed or reflexive ordering, an underflowing difference, a wrong total) can ever be derived by any program.',
 ['programs'],'all programs that name dimension types, i.e. all pairs of dimensions, supported or not, including ones no test mentions',
 'The tests instantiate only the accepted pairs; nothing compiles a pair that must be rejected, and a test cannot contain a program that must not compile.',
 [core+'constraint.rs'],[('impl_dim_add!/impl_dim_sub!/impl_dim_mul!/impl_dim_lt!',core+'constraint.rs')],['trait resolution of DimAdd/DimSub/DimMul/DimLt for ShapeConstraint'])
p('C02','Shape predicates hold exactly for the conforming shapes',
 'Two dimensions are equal for the shape checker exactly when they are the same dimension, and the representative of an equality is that dimension. "Can multiply" holds exactly when the inner dimensions agree, "can transpose-multiply" exactly when the row counts agree, "can extend" from N exactly to N+1 and "can contract" from N exactly to N-1, for every supported size; a generic program may rely on the dimension equalities and sums these predicates imply. Only dimension types take part in any of these judgments; dimension types have no values and occupy no storage.',
 ['programs'],'all 2- and 4-tuples of dimensions, in concrete and in generic programs, including user-defined dimensions',
 'Tests exercise five equal pairs and none of the derived predicates; that an ill-shaped combination is rejected cannot be expressed as a passing test.',
 [core+'constraint.rs'],[('DimEq blanket impl, CanMultiply, CanTransposeMultiply, CanExtend, CanContract',core+'constraint.rs')],['trait resolution and supertrait elaboration on ShapeConstraint'])
p('C03','Only shape-conforming programs compile, with the right result shape',
 'An R1xC1 matrix can be multiplied by an R2xC2 matrix, a vector or a point-like column exactly when the inner dimensions agree, and the result is R1xC2; transpose, row and column extraction, elementwise operations, extension and contraction and homogeneous conversion likewise accept exactly the conforming shapes and yield the shapes linear algebra prescribes. No program combining non-conforming shapes compiles.',
 ['programs'],'all operand shapes within the library\'s named types (rows and columns 1..4)',
 'Tests can only contain programs that compile; the shapes that must be rejected are never looked at.',
 [core+'matrix.rs',core+'vector.rs',core+'point.rs',core+'constraint.rs'],[('where-clauses on Mul, extend, contract, to_homogeneous',core+'matrix.rs')],['which operator/method calls type-check and the type of their result'])
p('C04','Vector and point arithmetic is componentwise and affine',
 'Addition, subtraction, negation, scaling, division, remainder and componentwise product of vectors act on every component independently with the scalar operation, for every dimension. Point minus point is the displacement vector, point plus/minus vector is a translated point, and moving a point by the displacement to another point yields that other point. Zero, unit and filled vectors and the origin are the corresponding constants.',
 ['inputs'],'all component values, dimensions 1..4 and scalar types',
 'Tests check a few hand-picked vectors per operator.',
 [core+'vector.rs',core+'point.rs'],[('operator impls',core+'vector.rs'),('operator impls',core+'point.rs')],['results of + - * / % neg and component_mul, zero/unit_*/from_fill/origin'])
p('C05','Dot, cross, triple, projection, reflection and lerp obey vector geometry',
 'Dot products are the sum of componentwise products (for vectors and points alike); the cross product is the antisymmetric right-handed product orthogonal to both operands; the triple product is the signed volume; projection, reflection about a unit normal and linear interpolation satisfy their defining equations. Squared norms and squared distances are the corresponding dot products.',
 ['inputs'],'all vectors and points of dimension 1..4',
 'Identities must hold for every operand combination; tests check selected vectors, often basis vectors for which many wrong formulas agree.',
 [core+'vector.rs',core+'point.rs'],[('dot, cross, triple, project, reflect, lerp, norm_squared',core+'vector.rs'),('same',core+'point.rs')],['their return values'])
p('C06','Matrix algebra: products, transposes and row/column structure',
 'The matrix-matrix, matrix-vector and transpose products equal the sums of products over the shared index for every shape; addition, scaling and component products are entrywise; transposition exchanges indices; identity, zero, diagonal, one-hot and row/column constructors build exactly the matrix they name; trace, diagonal, dot product and the symmetric/diagonal/identity predicates read exactly the entries they name.',
 ['inputs'],'all matrices of every shape R x C with R, C in 1..4 that the library names',
 'There are dozens of hand-unrolled product impls; tests multiply one or two fixed matrices per shape.',
 [core+'matrix.rs'],[('Mul impls, dot_array_col, transpose, tr_mul, from_diagonal ...',core+'matrix.rs')],['return values of matrix operations'])
p('C07','Determinant and inverse are the algebraic ones',
 'The determinant of a square matrix is the alternating multilinear one (so det(AB)=det(A)det(B), det(transpose)=det, zero exactly for singular matrices). Inversion returns a matrix that multiplies with the original to the identity from both sides whenever the matrix is clearly invertible, and reports failure for singular matrices; the invertibility predicate agrees with it.',
 ['inputs'],'all 1x1..4x4 real matrices',
 'The closed-form 4x4 cofactor expansion has 96 sign/index choices; fixed test matrices leave many of them unconstrained.',
 [core+'matrix.rs'],[('determinant, try_inverse, is_invertible',core+'matrix.rs')],['their return values'])
p('C08','Storage is column-major and every view and conversion agrees with it',
 'Every container exposes the same elements in the same order through indexing (by element, column, pair and range), named fields, slices, array and tuple references, raw pointers and by-value or by-reference conversions; matrices are column-major with no padding; writing through any mutable view changes exactly that element; row/column reads, writes and swaps touch exactly the named rows and columns. This holds for any element type: storing, mapping and rearranging moves each element and creates, duplicates or destroys no other.',
 ['inputs','histories'],'all sizes, all elements and all access paths, and sequences of writes through different views',
 'Each access path is spot-checked at a few indices of a few types; an aliasing or ordering error may be limited to one element of one view.',
 [core+'vector.rs',core+'point.rs',core+'matrix.rs',core+'quaternion.rs',core+'complex.rs',core+'coordinates.rs'],[('AsRef/AsMut/From/Deref/Index impls, transmutes of repr(C) types',core+'coordinates.rs')],['elements read through each view, before and after a write'])
p('C09','Homogeneous coordinates, extension and contraction round-trip',
 'Extending appends exactly the given last component and contracting removes exactly the last one, for vectors, points and matrices. A vector becomes homogeneous with weight 0 and a point with weight 1; converting back returns the original, divides points by the weight, and yields nothing for a vector-weight where a point is required (or the reverse). Embedding a linear map as an affine one acts on homogeneous coordinates as the linear map does.',
 ['inputs'],'all vectors, points and matrices of sizes 1..4 and all non-zero weights',
 'Tests use weight 1 or a single other weight.',
 [core+'vector.rs',core+'point.rs',core+'matrix.rs'],[('to_homogeneous, from_homogeneous, extend, contract, to_affine',core+'matrix.rs')],['their return values'])
p('C10','Complex numbers form a field with conjugation',
 'Complex addition, subtraction, multiplication and division (between complex numbers and with scalars on the right) satisfy the field axioms with i*i = -1; conjugation, squared modulus, inverse, squaring and every integer power (positive, zero or negative, in all provided forms) agree with repeated multiplication; the real/imaginary parts, constants and predicates read the parts they name.',
 ['inputs'],'all complex numbers and all integer exponents',
 'Tests sample a few values and no negative exponents beyond one; field laws are universally quantified.',
 [core+'complex.rs'],[('operator impls, powi, powu, inverse, conjugate',core+'complex.rs')],['their return values'])
p('C11','Complex elementary functions are mutually consistent principal values',
 'exp maps a+bi to e^a(cos b, sin b) and ln is its principal inverse with argument in (-pi, pi]; sqrt squares back with non-negative real part; trigonometric and hyperbolic functions equal their exponential definitions and the inverse functions invert them on the principal range; polar decomposition recombines to the number; powers with real and complex exponents are exp(w ln z).',
 ['inputs'],'all complex numbers in every quadrant, on the axes and on the branch cuts',
 'Each function has quadrant and special-value branches; tests evaluate a few points.',
 [core+'complex.rs'],[('exp, ln, sqrt, cbrt, sin.. atanh, polar_decomposition, powf, powc',core+'complex.rs')],['their return values'])
p('C12','Quaternions form the Hamilton division algebra',
 'Quaternion multiplication is Hamilton\'s product (i*j=k, j*k=i, k*i=j, squares -1, associative, non-commutative), addition and scaling are componentwise, the norm is multiplicative, conjugation reverses products and the inverse multiplies to one on both sides; left and right division, squaring, inner and outer products satisfy their defining equations. Scalar and vector parts are where every accessor says they are.',
 ['inputs'],'all quaternions',
 'Tests check basis products and fixed values; a sign error in one of 16 product terms can cancel on symmetric inputs.',
 [core+'quaternion.rs'],[('Mul impls, conjugate, inverse, div_left, div_right',core+'quaternion.rs')],['their return values'])
p('C13','Unit quaternions and rotation matrices represent the same rotations',
 'A unit quaternion built from an axis and an angle rotates vectors right-handedly by that angle; converting it to a 3x3 or 4x4 rotation matrix gives the matrix performing the same rotation; products map to products; converting a rotation matrix to a quaternion and back returns the same rotation in every branch of the conversion; rotation-between constructors map the first direction to the second along the shortest arc.',
 ['inputs'],'all rotations, including half turns about every axis and the identity',
 'The matrix-to-quaternion conversion has four branches selected by sign and size of diagonal entries; fixed examples reach few of them.',
 [core+'quaternion.rs',core+'matrix.rs'],[('from_axis_angle, to_matrix3x3, From<Matrix3x3>, rotation_between',core+'quaternion.rs')],['rotated vectors, matrices, quaternions'])
p('C14','Quaternion exponential, logarithm, powers and interpolation are consistent',
 'exp of a pure quaternion is the unit quaternion with that half-angle and axis, ln inverts it on the principal range, powers satisfy q^a = exp(a ln q), square roots square back, the polar form recombines to the quaternion, and trigonometric/hyperbolic functions extend the complex ones, their inverses off the real axis returning principal values. slerp and nlerp return the endpoints (as rotations) at 0 and 1 and stay unit-length; slerp follows the shorter arc at constant angular speed.',
 ['inputs'],'all quaternions away from zero, all pairs of unit quaternions and all amounts in [0,1]',
 'Branching on sign and size of the scalar part, the dot product and the vector norm; tests sample a few angles.',
 [core+'quaternion.rs'],[('exp, ln, powf, sqrt, slerp, nlerp, cos..atanh',core+'quaternion.rs')],['their return values'])
p('C15','Rotation constructors are proper, right-handed and agree with each other',
 'Every constructor of a rotation (by angle, about a coordinate axis, about an arbitrary unit axis, from a quaternion, between two directions), as a matrix of size 2, 3 or 4 or as a rotation object, yields an orthogonal matrix of determinant 1 rotating counter-clockwise (right-handed) by the given angle; all forms for the same rotation agree, and the angle and axis read back describe the same rotation.',
 ['inputs'],'all angles of any magnitude and sign, all unit axes, all direction pairs that determine a rotation',
 'Tests use 30/45/90-degree angles about coordinate axes, where many sign and index errors are invisible.',
 [core+'matrix.rs',tf+'rotation.rs'],[('from_angle*, from_axis_angle, rotation_between',core+'matrix.rs'),('Rotation2/Rotation3',tf+'rotation.rs')],['matrices and rotated vectors/points; angle(), axis()'])
p('C16','Euler angles and rotations convert consistently',
 'Converting Euler angles (roll about x, yaw about y, pitch about z) to a 3x3 or 4x4 matrix, a rotation or a transform yields the product Rx(roll)*Ry(yaw)*Rz(pitch); extracting Euler angles from a rotation matrix, rotation object or quaternion yields angles that reproduce the same rotation, within the stated principal ranges.',
 ['inputs'],'all roll, pitch and yaw angles, including yaw at and beyond a quarter turn',
 'Three angles interact in nine entries; tests use single-axis or fixed angles.',
 [core+'euler.rs',core+'matrix_euler.rs',tf+'rotation.rs'],[('Euler::to_matrix, from_matrix, From<Quaternion>',core+'euler.rs')],['matrix entries and extracted angles'])
p('C17','Look-at and look-to views place and orient the camera correctly',
 'A left- or right-handed look-to or look-at view, as a matrix, rotation, isometry or similarity, maps the eye to the origin, the viewing direction to the positive (left-handed) or negative (right-handed) z axis, keeps the up hint in the y-z half-plane with positive y, and is a rigid motion; the inverse constructors undo the forward ones; look-at equals look-to with direction target minus eye.',
 ['inputs'],'all eyes, non-zero directions, up vectors not parallel to the direction',
 'Tests use axis-aligned cameras or an eye at the origin, for which transposed or mis-signed columns agree.',
 [core+'matrix.rs',tf+'rotation.rs',tf+'isometry.rs',tf+'similarity.rs',core+'quaternion.rs'],[('look_to_lh/rh(_inv), look_at_lh/rh(_inv)',core+'matrix.rs')],['images of eye, target, up under the result'])
p('C18','A transformation acts exactly as its homogeneous matrix',
 'For translations, rotations, scales, shears, reflections, isometries, similarities and general transforms in 2D and 3D, applying the object to a point or a vector gives the same result as multiplying its homogeneous matrix by the point (weight 1) or vector (weight 0); conversions between transformation kinds preserve the action; the inverse object and the inverse-apply operations undo it exactly; identity does nothing.',
 ['inputs'],'all transformation parameters, points and vectors',
 'Each kind implements apply, inverse-apply and to-matrix separately; tests compare fixed pairs.',
 [tf+f for f in ('translation.rs','rotation.rs','scale.rs','shear.rs','reflection.rs','isometry.rs','similarity.rs','transform.rs')],[('apply_point, apply_vector, inverse, inverse_apply_*, to_affine_matrix, to_transform',tf+'*.rs')],['images of points and vectors, matrices'])
p('C19','Composition of transformations is function composition',
 'The product of any two composable transformations, of the same or different kinds and in owned or borrowed form, acts on points and vectors as applying the right factor first and the left factor second; composition is associative, identities are neutral and the inverse of a product is the reversed product of inverses.',
 ['inputs','histories'],'all pairs and chains of transformations of all kinds',
 'There are over a hundred product impls between kinds; tests cover some with one value each.',
 [tf+f for f in ('isometry_ops.rs','isometry.rs','similarity.rs','rotation.rs','translation.rs','transform.rs','scale.rs','shear.rs','reflection.rs')],[('Mul impls',tf+'isometry_ops.rs')],['action of products on points and vectors'])
p('C20','Scale, shear, reflection and translation matrices do what they name',
 'Scale matrices multiply each axis by its factor, shear matrices add the stated multiple of one axis to another (or shear along a direction relative to a plane through an origin), reflection matrices fix the mirror plane pointwise and negate its normal offset, and translation matrices add the displacement; linear, affine and per-axis forms of the same map agree.',
 ['inputs'],'all factors, directions, normals and plane offsets',
 'Tests use unit factors or axis-aligned planes.',
 [core+'matrix.rs',tf+'scale.rs',tf+'shear.rs',tf+'reflection.rs'],[('from_scale*, from_shear*, from_reflection, from_translation',core+'matrix.rs')],['matrix entries and images'])
p('C21','Projections map the view volume to the canonical cube and back',
 'Perspective and orthographic projections (from frustum bounds or field of view, as matrices or projection objects) send the corners of the view volume to the corners of the canonical [-1,1] cube with near to -1 and far to +1; the object\'s project operations agree with its matrix after perspective division; unproject inverts project; the parameters read back are the ones given.',
 ['inputs'],'all view volumes with near < far, left < right, bottom < top, symmetric or not',
 'Tests use symmetric frusta, for which off-centre terms vanish.',
 [core+'matrix.rs',tf+'projection.rs'],[('from_perspective*, from_orthographic*',core+'matrix.rs'),('Perspective3, Orthographic3',tf+'projection.rs')],['projected points, matrices, getters'])
p('C22','Typed angles convert, normalise and combine consistently',
 'Degrees and radians measure the same angles: conversion multiplies by pi/180 and round-trips; trigonometric functions of equal angles agree and inverse trigonometric functions return principal angles; arithmetic on angles is scalar arithmetic on their measures; normalisation returns the equivalent angle in [0, full turn) or [-half turn, half turn); opposite, bisector and fraction-of-turn constants are the ones named.',
 ['inputs'],'all angle measures, positive, negative, multiple turns and exact multiples of half turns',
 'Boundary behaviour of normalisation and mixed-unit arithmetic is only sampled.',
 [tr],[('Angle trait, Radians, Degrees',tr)],['results in both units'])
p('C23','Normalisation and unit wrappers yield unit values in the same direction',
 'Normalising a non-zero vector, quaternion, complex number or matrix by any provided form yields a positive multiple of it with norm one, and the reported norm is the original norm; the fallible forms fail exactly when the norm does not exceed the threshold and leave in-place values unchanged then; a unit wrapper built from a value holds its normalisation, exposes it unchanged, and its negation is the opposite unit value.',
 ['inputs'],'all non-zero values and thresholds of every normed type',
 'Four types implement nine methods each plus the wrapper; thresholds are only tested well away from the boundary.',
 [core+'normed.rs',core+'unit.rs',core+'vector.rs',core+'quaternion.rs',core+'complex.rs',core+'matrix.rs'],[('Normed impls, Unit',core+'normed.rs')],['normalised values, norms, Option results'])
p('C24','Norms, distances and extremal operations are the mathematical ones',
 'The L1, L2, Lp, maximum and matrix norms and the distances derived from them equal their definitions (hence are non-negative, zero only at zero, symmetric, and satisfy the triangle inequality); componentwise minimum and maximum, clamping, sign and absolute value pick exactly the correct operand for every ordering.',
 ['inputs'],'all vectors, points and matrices, and all orderings and signs of scalars of every type',
 'A norm that ignores one component or a sign passes tests whose largest entry lies elsewhere.',
 [core+'vector.rs',core+'point.rs',core+'matrix.rs',core+'normed.rs',nu],[('Norm impls, SimdScalarOrd/Signed',nu)],['their return values'])
p('C25','Approximate comparison inspects every component symmetrically',
 'Two containers, angles or transformations compare approximately equal (absolute, relative or ulps) exactly when every corresponding component does under the same tolerance; a difference above tolerance in any single component makes them unequal, the comparison is reflexive and symmetric, "not equal" is its negation, per-component tolerances apply to their own component, and the differences and tolerances a failed assertion reports are those of the components.',
 ['inputs'],'all component positions and difference magnitudes around the tolerance for every comparable type',
 'Tests compare values that differ everywhere or nowhere.',
 [core+'vector.rs',core+'point.rs',core+'matrix.rs',core+'quaternion.rs',core+'complex.rs',core+'euler.rs',core+'unit.rs',tr]+[tf+'*.rs'],[('AbsDiffEq/RelativeEq/UlpsEq impls','all container modules')],['comparison results'])
p('C26','Numeric conversions are elementwise and fail exactly when unrepresentable',
 'Casting a vector, point, matrix, quaternion or complex number to another scalar type converts each component in place, and fails exactly when some component is not representable in the target type; the scalar layer\'s numeric operations and constants agree with the underlying primitive type.',
 ['inputs'],'all component values and positions and pairs of primitive scalar types',
 'Tests cast a few small values; a cast that swaps or drops one component or tolerates one overflow position passes them.',
 [core+'vector.rs',core+'point.rs',core+'matrix.rs',core+'quaternion.rs',core+'complex.rs',nu],[('try_cast, cast, SimdCast',nu)],['Some/None and the components'])
p('C27','All forms of an operator agree',
 'For every operator, the owned, borrowed, mixed and compound-assignment forms, and the scalar-on-the-left forms for each primitive type, give the same result, for every scalar type.',
 ['inputs','configurations'],'all operands, all scalar types, all ownership forms',
 'There are many hundreds of macro-generated and hand-written impls; tests use mostly one ownership form and one scalar type.',
 [core+'vector.rs',core+'point.rs',core+'matrix.rs',core+'quaternion.rs',core+'complex.rs',tr],[('ops impls',core+'*.rs')],['results of each form'])
p('C28','Named components and swizzles select the components they name',
 'Reading a named component or any swizzle of a vector or point returns exactly the named components in the named order, for every dimension; named fields alias the indexed elements, and basis constructors are one at exactly the named axis.',
 ['inputs'],'all several hundred swizzles of vectors and points and all values',
 'Hundreds of near-identical one-line definitions; a transposed index is invisible when test components repeat.',
 [core+'vector.rs',core+'point.rs',core+'coordinates.rs'],[('impl_swizzle!, impl_coords!',core+'vector.rs')],['components returned'])
p('C29','Any history of in-place operations ends in the state algebra predicts',
 'After any sequence of in-place operations (compound assignments, negation, scaling, componentwise products, element, row and column writes and swaps, transposition, normalisation-free updates) on vectors, points, matrices, quaternions and complex numbers, interleaved with reads and products, every object holds exactly the value obtained by applying the corresponding pure operations in order, and objects not named by an operation are unchanged.',
 ['histories'],'all finite sequences of operations over a set of objects',
 'Tests apply one in-place operation to one fresh object.',
 [core+'vector.rs',core+'point.rs',core+'matrix.rs',core+'quaternion.rs',core+'complex.rs'],[('*Assign impls, neg_mut, swap_*, set/IndexMut',core+'*.rs')],['object values after each call'])
p('C30','Complex elementary functions take their limits at infinities and NaN',
 'At arguments with an infinite or not-a-number component the complex circular and hyperbolic functions sin, cos, tan, sinh, cosh, tanh and their inverses return the limit of the function there, as tabulated for complex arithmetic in C99 Annex G: infinite, zero or a multiple of pi/4 in the component and with the sign the limit has, and not-a-number exactly where no limit exists; conjugate and reflection symmetry carry over to these arguments.',
 ['inputs'],'all pairs of component classes (zero, finite, infinite, NaN; both signs) that include a non-finite component, and all quadrants of the finite component',
 'The special-case branches are long chains of conditions on classes of both components; tests visit none of most combinations.',
 [core+'complex.rs'],[('is_infinite/is_nan branches of sin..atanh',core+'complex.rs')],['class, sign and multiple of pi of both components of the result'])
p('C31','A printed value shows its kind, its dimensions and every component in order',
 'Formatting a value with {} yields the documented textual form: vectors and points as their name, dimension and bracketed components in order; matrices as MatrixRxC and the bracketed list of columns; complex numbers as "re + iim" and quaternions as "s + [x, y, z]"; angles with their unit; Euler angles and every transformation with its name, dimension and its named parts; each component appears exactly as its scalar type prints it, so distinct values print differently.',
 ['inputs'],'all values of every printable type, dimension and scalar type, non-finite scalars included',
 'No test prints more than a few values; a dropped, repeated or transposed component is visible only for particular shapes.',
 [core+'vector.rs',core+'point.rs',core+'matrix.rs',core+'complex.rs',core+'quaternion.rs',core+'euler.rs',core+'unit.rs',tr]+[tf+'*.rs'],[('fmt::Display impls',core+'*.rs')],['strings produced by format!'])
p('C32','Equality, hashing and predicates depend on every component',
 'Two vectors, points, matrices, complex numbers, quaternions, angles, Euler angles or unit values are equal exactly when all corresponding components are; equal values hash alike. is_zero, is_one/is_identity, is_pure, is_real, is_imaginary, is_diagonal, is_symmetric, is_finite and their like hold exactly when their definition holds for every component, non-finite and very small components included.',
 ['inputs'],'all component positions and values, including signed zeros, tiny values, infinities and NaN, for every type, dimension and scalar type',
 'A predicate that forgets one component is right on every value that differs elsewhere too, which is what tests use.',
 [core+'vector.rs',core+'point.rs',core+'matrix.rs',core+'complex.rs',core+'quaternion.rs',core+'euler.rs',core+'unit.rs',tr],[('PartialEq/Hash derives and is_* methods',core+'*.rs')],['truth values and hashes'])
p('C33','The scalar interface computes the elementary functions it names',
 'Through the scalar traits every primitive type offers the operation its name says: floor, ceil, round (halves away from zero), trunc and fract; fused multiply-add, roots, integer and real powers, reciprocals, hypotenuse; exponentials and logarithms in every base as mutually inverse homomorphisms; circular and hyperbolic functions and their inverses satisfying their defining identities; the named constants to full precision; bounds, signs, classification and ordering agreeing with the type.',
 ['inputs'],'all scalars and scalar types for which the trait is implemented',
 'The trait layer is macro-forwarded; the tests of this crate call almost none of it.',
 [nu],[('SimdScalarFloat, SimdScalarOrd, SimdScalarSigned, SimdScalarBounded impls',nu)],['return values of the trait methods'])
p('C34','Any history of transformations ends in the maps affine algebra predicts',
 'After any sequence of calls that compose, invert (in place or not), convert, take apart, rebuild and apply translations, rotations, scales, shears, reflections, isometries, similarities and general transforms, and move points and vectors with them, every object holds the value that exact affine algebra predicts: composition acts right factor first, inverses undo, conversion to a matrix or to a more general kind keeps the map, parts read back are the ones put in, and objects not named by a call are unchanged.',
 ['histories'],'all finite sequences of calls over a set of transformations, points and vectors of the plane and of space',
 'Tests apply one call to one fresh object; composition of compositions, inverses of inverses and conversions in between are never chained.',
 [tf+'*.rs'],[('Mul impls, inverse, inverse_mut, apply_*, inverse_apply_*, to_transform, to_affine_matrix, from_*',tf+'*.rs')],['components of every object after each call'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
