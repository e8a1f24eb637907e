#!/usr/bin/env python3
"""Property texts; running this file rewrites properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "ntl-extras/mat_lzz_pX_extra/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), na=na))
I = ["inputs"]; IC = ["inputs", "configurations"]
TESTS = "The tests draw a few random inputs (generic ones: no zero entries, no cancelled leading terms, no exceptional pivots) for a few sizes and primes; "

prop("P01", "Polynomial matrix products are exact for every algorithm and precomputation",
     "Whatever algorithm is chosen (naive, Waksman, small-degree transforms, dense / FFT / geometric evaluation, precomputed left multipliers, or the automatic choice), the product of two polynomial matrices of compatible dimensions is exactly the schoolbook product, with the dimensions of the product and normalized entries. This includes zero operands, operands with zero or low-degree entries, unequal degrees, and an output that aliases an input where the operation allows it.",
     IC, "every coefficient value (hence every zero pattern and every degree pattern) of both operands, for each listed dimension, degree bound, prime and algorithm",
     TESTS + "none has a zero operand or low-degree entries, and no test can range over all coefficient values.",
     [M + f for f in ("mat_lzz_pX_multiply.cpp", "mat_lzz_pX_multiply_naive.cpp", "mat_lzz_pX_multiply_transform.cpp", "mat_lzz_pX_multiply_evaluate_dense.cpp", "mat_lzz_pX_multiply_evaluate_FFT.cpp", "mat_lzz_pX_multiply_evaluate_geometric.cpp", "mat_lzz_pX_lmultiplier.cpp")],
     [("evaluate, multiply pointwise, interpolate at enough points", M + "mat_lzz_pX_multiply_evaluate_*.cpp"), ("algorithm dispatch by size and prime", M + "mat_lzz_pX_multiply.cpp")])
prop("P02", "Middle products return exactly the requested slice of the product",
     "A middle product of two polynomials, or of two polynomial matrices, returns exactly the requested consecutive coefficients of the full product, whichever algorithm computes it and whatever the relation between the two lengths. The output may alias an input and is normalized.",
     IC, "every coefficient value of both operands, for each listed pair of degrees, prime and algorithm",
     TESTS + "a wrong term that only shows for a particular length ratio or zero pattern escapes them.",
     ["ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp", M + "mat_lzz_pX_middle_product.cpp", M + "mat_lzz_pX_middle_product_evaluate_FFT.cpp", M + "mat_lzz_pX_middle_product_evaluate_dense.cpp"],
     [("transposed Karatsuba / FFT wrap-around", "ntl-extras/lzz_pX_middle_product/src"), ("evaluation-based matrix middle products", M + "mat_lzz_pX_middle_product*.cpp")])
prop("P03", "Scalar polynomial and field helpers satisfy their defining identities",
     "Truncated multiplication by an inverse, Taylor shift, addition of a shifted polynomial, simultaneous inversion of field elements, order and element-of-order computations, and the monic test satisfy their defining identities for every input. Aliased arguments, zero polynomials and small characteristic are included, and impossible requests are reported as errors.",
     IC, "every coefficient or field element value, for each listed length, truncation order, prime and aliasing pattern",
     TESTS + "zero polynomials, aliasing and small characteristic are not tested.",
     ["ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp", "ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp", "ntl-extras/vec_lzz_p_extra/src/vec_lzz_p_extra.cpp"],
     [("divide-and-conquer and large-characteristic Taylor shift", "ntl-extras/lzz_pX_extra/src"), ("batch inversion", "ntl-extras/vec_lzz_p_extra/src")])
prop("P04", "Multipoint evaluation, interpolation and their transposes are exact",
     "For a set of distinct points (arbitrary, geometric progression, or roots of unity), evaluating a polynomial gives its value at each point, interpolating any values gives the unique polynomial of degree less than the number of points, and the two operations are inverse to each other. The transposed operations compute the transposed linear maps, and the vector and matrix versions agree entrywise with the scalar ones.",
     IC, "every polynomial / value vector, for each listed kind and number of points; for small sizes also every choice of points",
     TESTS + "they use a handful of random polynomials per kind of point set.",
     ["ntl-extras/lzz_pX_CRT/src/lzz_pX_CRT.cpp"],
     [("subproduct tree and transposed product for general points", "ntl-extras/lzz_pX_CRT/src"), ("Bluestein-like middle products for geometric progressions", "ntl-extras/lzz_pX_CRT/src")])
prop("P05", "Short transforms and polynomial Chinese remaindering are exact bijections",
     "The evaluation/interpolation transforms used for small-degree products compute products exactly, and reducing a polynomial modulo pairwise coprime moduli then recombining gives back the polynomial (or its remainder by the product of the moduli). Both hold for zero and low-degree inputs.",
     IC, "every coefficient value of the inputs, for each listed number and degree of moduli and each transform",
     TESTS + "only a few random inputs of full degree are tried.",
     ["ntl-extras/lzz_pX_CRT/src/lzz_pX_CRT.cpp", "ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp"],
     [("transforms naive / Karatsuba / Montgomery / CRT", "ntl-extras/lzz_pX_CRT/src"), ("subproduct tree and recombination", "ntl-extras/lzz_pX_CRT/src")])
prop("P06", "Degrees, pivots, leading matrices and form predicates follow their definitions",
     "For every polynomial matrix and every row or column shift, shifted degrees, pivot indices and degrees, degree matrices and leading matrices are those of the definition, and the reduced / weak Popov / ordered weak Popov / Popov predicates answer true exactly on matrices in that form. A shift of the wrong length is refused with an error.",
     IC, "every coefficient value (hence every degree and pivot pattern, including zero rows), for each listed dimension, degree bound, shift and orientation",
     TESTS + "random matrices are almost never in a special form, so the predicates are hardly exercised on their boundary.",
     [M + "mat_lzz_pX_forms.cpp"],
     [("row/column degree and pivot scans with ties", M + "mat_lzz_pX_forms.cpp"), ("strongest-form search", M + "mat_lzz_pX_forms.cpp")])
prop("P07", "Entrywise matrix arithmetic, utilities and conversions are exact",
     "Sums, differences, negations, scalar and constant-matrix products, truncations, shifts, reversals, transposition, coefficient access, evaluation, clearing and conversions between representations of polynomial vectors and matrices give exactly the entrywise mathematical result, with the right dimensions and normalized entries. Where aliasing is allowed, it changes nothing.",
     IC, "every coefficient value (hence every degree pattern), for each listed dimension, degree bound, operation parameter and aliasing pattern",
     TESTS + "entries of unequal degree, zero entries, aliasing and boundary parameters are mostly absent.",
     [M + "mat_lzz_pX_arith.cpp", M + "mat_lzz_pX_utils.cpp"],
     [("entrywise loops and in-place special cases", M + "mat_lzz_pX_utils.cpp"), ("coefficient-vector conversions", M + "mat_lzz_pX_utils.cpp")])
prop("P08", "Truncated inverses and high-order lifting of polynomial matrices are exact",
     "For a square polynomial matrix with invertible constant term and any truncation order, every truncated-inverse algorithm (plain, FFT, middle product, geometric, automatic), at every recursion threshold, returns the matrix of degree less than the order whose product with the input is the identity up to that order. A singular constant term is reported as an error, aliasing the output with the input changes nothing, and high-order lifting returns the announced slice of the inverse's expansion.",
     IC, "every coefficient value with an invertible constant term (and every singular constant term for the error case), for each listed dimension, degree, order, threshold, algorithm and prime",
     TESTS + "orders and thresholds around the recursion boundary, aliasing and singular input are not covered.",
     [M + "mat_lzz_pX_inv_trunc.cpp"],
     [("Newton iteration with plain / FFT / middle product / geometric steps", M + "mat_lzz_pX_inv_trunc.cpp"), ("high-order lifting by residues", M + "mat_lzz_pX_inv_trunc.cpp")])
prop("P09", "Power series and polynomial linear systems are solved exactly",
     "For A with invertible constant term, solving A x = b modulo X^d (low precision, high precision, high-order lifting, automatic, matrix or vector right-hand side) returns the unique solution of degree less than d. Solving A u = den * b over the polynomials returns a numerator vector u and a nonzero denominator den satisfying the equation exactly whenever A is nonsingular. Aliasing the solution with the inputs changes nothing.",
     IC, "every coefficient value of A and b satisfying the requirement, for each listed dimension, degree, order, algorithm and prime",
     TESTS + "generic systems never exercise exceptional pivots, denominators of lower degree, or aliasing.",
     [M + "mat_lzz_pX_linsolve.cpp", M + "mat_lzz_pX_inv_trunc.cpp"],
     [("block lifting and high-order lifting", M + "mat_lzz_pX_linsolve.cpp"), ("rational reconstruction / kernel of the augmented matrix", M + "mat_lzz_pX_linsolve.cpp")])
prop("P10", "Determinants of polynomial matrices are exact, and verification is right",
     "Every determinant algorithm (evaluation at general, geometric or FFT points, expansion by minors) returns the exact determinant for every square matrix, including singular, zero, constant and 1x1 ones. The algorithms that work up to a constant or under genericity assumptions either return a constant multiple of the determinant or say that they failed, and determinant verification accepts the determinant and refuses a polynomial that differs from it.",
     IC, "every coefficient value, for each listed dimension, degree bound, algorithm and prime",
     TESTS + "random matrices are nonsingular with a determinant of full degree, so singular and degree-deficient inputs are never tried.",
     [M + "mat_lzz_pX_determinant.cpp"],
     [("evaluation / interpolation at enough points", M + "mat_lzz_pX_determinant.cpp"), ("triangularization via kernels assuming genericity, checked by the degree", M + "mat_lzz_pX_determinant.cpp")])
prop("P11", "Matrix division with remainder and row reduction return what they promise",
     "Dividing a polynomial matrix A by a row-reduced nonsingular matrix B returns Q and R with A = B Q + R and every row of R of degree less than the corresponding row degree of B. The reduced-form algorithm returns a reduced matrix with the same row space as its input, or reports that the constant term is singular.",
     IC, "every coefficient value satisfying the requirement, for each listed dimension, degree pattern and prime",
     TESTS + "degree patterns where the quotient vanishes or rows have unequal degrees are rare in random inputs.",
     [M + "mat_lzz_pX_division.cpp", M + "mat_lzz_pX_reduction.cpp"],
     [("quotient by truncated inverse of the reversed divisor", M + "mat_lzz_pX_division.cpp"), ("GJV reduction by high-order lifting and approximants", M + "mat_lzz_pX_reduction.cpp")])
prop("P12", "Approximant bases are minimal bases of the whole approximant module",
     "For every matrix F, order(s) and shift, each approximant basis algorithm returns a matrix P whose rows are approximants of F at that order, which generates all of them (right determinant degree), is in the announced shifted form (ordered weak Popov or Popov), and the announced row degrees / pivots are those of P. The generic 2n x n and Pade variants return, on inputs satisfying their genericity requirement, the basis or block they announce.",
     IC, "every coefficient value of F (hence every rank profile and every degeneracy), for each listed dimension, order, shift, prime and algorithm",
     TESTS + "random inputs are generic: rank drops, dependent rows, zero columns and shift ties do not occur.",
     [M + "mat_lzz_pX_approximant.cpp", M + "mat_lzz_pX_pmbasis.cpp", M + "mat_lzz_pX_pmbasis_generic.cpp"],
     [("iterative, M-Basis and PM-Basis with shift updates", M + "mat_lzz_pX_approximant.cpp"), ("residual update or recomputation, divide and conquer by middle products", M + "mat_lzz_pX_approximant.cpp")])
prop("P13", "Interpolant bases are minimal bases of the whole interpolant module",
     "For every family of evaluation matrices (or matrix F) and distinct points (arbitrary or a geometric progression) and every shift, each interpolant basis algorithm returns a matrix whose rows vanish on the data at every point, which generates all such vectors, is in the announced shifted form, and comes with the right shifted row degrees. Offsets into longer data and the Popov variants behave the same.",
     IC, "every coefficient value of F, for each listed dimension, number and kind of points, shift, prime and algorithm",
     TESTS + "random inputs are generic: evaluations of deficient rank, dependent rows and shift ties do not occur.",
     [M + "mat_lzz_pX_interpolant.cpp"],
     [("M-Basis by points, PM-Basis by subproduct or geometric splitting", M + "mat_lzz_pX_interpolant.cpp"), ("residual evaluation update", M + "mat_lzz_pX_interpolant.cpp")])
prop("P14", "Kernel bases are minimal bases of the whole kernel",
     "For every polynomial matrix and shift, each left kernel basis algorithm returns a matrix K with K F = 0, whose number of rows is the dimension of the kernel, whose rows generate the whole kernel module and are reduced for the shift, with the announced pivots and shifted row degrees. Rank-deficient, zero, single-row and wide inputs are included.",
     IC, "every coefficient value of F (hence every rank), for each listed dimension, degree bound, shift, prime and algorithm",
     TESTS + "random inputs have full rank and balanced kernels.",
     [M + "mat_lzz_pX_kernel.cpp"],
     [("kernel rows among the rows of a high-order approximant or interpolant basis", M + "mat_lzz_pX_kernel.cpp"), ("Zhou-Labahn-Storjohann recursion with early exit", M + "mat_lzz_pX_kernel.cpp")])
prop("P23", "Products over small fields and by multi-modular arithmetic are exact",
     "Over a small field, or a field without enough roots of unity, products, left multipliers and middle products (which may go through computations modulo several FFT primes and Chinese remaindering) return exactly the schoolbook product, and no algorithm uses more evaluation points than the field has.",
     IC, "every coefficient value of both operands, for each listed small or non-FFT prime, dimension and degree bound",
     TESTS + "small primes are tried for very few sizes.",
     [M + "mat_lzz_pX_multiply.cpp", M + "mat_lzz_pX_multiply_3_primes.cpp", M + "mat_lzz_pX_lmultiplier.cpp"],
     [("lifting to integers, three FFT primes, Chinese remaindering", M + "mat_lzz_pX_multiply_3_primes.cpp"), ("choice of algorithm from the field size", M + "mat_lzz_pX_lmultiplier.cpp")])
prop("P26", "Basis verification accepts right bases and refuses wrong ones",
     "The approximant, interpolant and kernel basis verification functions accept every basis that meets the definition in the requested form. They refuse a matrix whose rows leave the module, that does not generate the module (approximants and interpolants), that is not in the requested shifted form, or that is not reduced.",
     IC, "every coefficient value of the input and, for each, the basis computed from it and its damaged variants (row multiplied by X, row leaving the module, rows exchanged, reducedness lost), for each listed dimension, shift and form",
     TESTS + "the tests use these functions as their oracle and never test them on wrong bases.",
     [M + "mat_lzz_pX_approximant.cpp", M + "mat_lzz_pX_interpolant.cpp", M + "mat_lzz_pX_kernel.cpp"],
     [("residual test, determinant test and generation test by rank", M + "mat_lzz_pX_approximant.cpp"), ("determinant degree against the sum of ranks", M + "mat_lzz_pX_interpolant.cpp")])
prop("P15", "Joins, column collapses and partial linearization",
     "horizontal_join and the two column collapses return the matrix of their definition, also when the output aliases an input, and refuse incompatible dimensions. Column partial linearization expands each column into blocks of the requested degree that recombine to the input column (all coefficients kept, none invented), for zero columns, target degrees above or below the actual degree and a shifted start; products and middle products through it equal the plain ones, whatever the output held before.",
     IC, "every coefficient value of the operands for each listed dimension, length, block degree and target degree",
     TESTS + "the functions are declared experimental and not tested.",
     [M + "mat_lzz_pX_linearization.cpp"],
     [("joins and collapses", M + "mat_lzz_pX_linearization.cpp"), ("partial linearization and the products through it", M + "mat_lzz_pX_linearization.cpp")])
S = "ntl-extras/structured_lzz_p/src/"
prop("P16", "Structured matrices over the base field act as their dense form",
     "For every structured class (Hankel, Toeplitz, lower triangular Toeplitz, circulant by rows or columns, Toeplitz- and Hankel-like from displacement generators, Cauchy and Cauchy-like on geometric progressions, mosaic Hankel and Toeplitz, Sylvester), to_dense is the matrix of its definition, and multiplication on the right or on the left by a vector or by a matrix equals the product with that dense matrix, also when the output aliases the input or held something before, with wrong sizes refused where a size check is offered. Displacement operators and displacement generators satisfy their defining identities (Z1 M - M Z0 = G H^t and its variants), and the shift, reversal and diagonal helper matrices are what they are named.",
     IC, "every value of the structured data, generators and operand for each listed size, displacement rank and block layout",
     TESTS + "the structured classes are compared with dense products on random data; several members were never called.",
     [S + "hankel_lzz_p.cpp", S + "toeplitz_lzz_p.cpp", S + "cauchy_geometric_lzz_p.cpp", S + "mosaic_hankel_lzz_p.cpp"],
     [("Hankel, Toeplitz, circulant products", S + "hankel_lzz_p.cpp"), ("displacement-structured products", S + "toeplitz_like_plus_lzz_p.cpp"), ("Cauchy and Cauchy-like products", S + "cauchy_like_geometric_lzz_p.cpp"), ("mosaic and Sylvester products and generators", S + "mosaic_toeplitz_lzz_p.cpp")])
prop("P17", "Structured solving and inversion over the base field",
     "Whenever a structured solver reports success the returned vector solves the system, and an empty answer means there is no solution; whenever an inversion reports success the returned matrix is the inverse (for Cauchy-like matrices, of the leading principal minor whose size is the rank), and refusals happen only for matrices without generic rank profile (Cauchy-like), singular matrices (Sylvester), or an unlucky preconditioner (mosaic). This holds for Cauchy-like matrices with the direct, block and divide-and-conquer algorithms, for mosaic Hankel and Toeplitz matrices whatever the random preconditioner drawn, and for Sylvester matrices of non-constant polynomials: solve, transposed solve, inverse and top-right block of the inverse, with or without precomputed inverse.",
     IC, "every value of the symbolic generator/operand entries (and, in the listed configurations, of the library's own random draws) for each listed size and rank",
     TESTS + "solvers are run on a few random invertible matrices; singular inputs and unlucky draws are not.",
     [S + "cauchy_like_geometric_lzz_p.cpp", S + "mosaic_hankel_lzz_p.cpp", S + "mosaic_toeplitz_lzz_p.cpp", S + "sylvester_lzz_p.cpp"],
     [("Cauchy-like inversion and solving", S + "cauchy_like_geometric_lzz_p.cpp"), ("mosaic solving and inversion", S + "mosaic_hankel_lzz_p.cpp"), ("Sylvester solving", S + "sylvester_lzz_p.cpp")])
S2 = "ntl-extras/structured_lzz_pX/src/"
prop("P18", "Structured matrices over the polynomial ring",
     "For lower-triangular Toeplitz, circulant-row, Toeplitz-like and Sylvester matrices with univariate polynomial entries: the dense form is the matrix they are documented to represent, left and right products (by vectors or matrices, exact or truncated modulo x^s, with any precomputation, with a fresh, reused or aliased output) equal the schoolbook product, operands of the wrong size are refused, displacement operators and generators satisfy the displacement equation; the truncated inverses of a Sylvester matrix (Newton or high-order lifting), when not refused, are the inverse modulo x^m with generators of degree < m, and they are refused only for constant polynomials, a leading coefficient vanishing at zero, or a matrix singular at zero.",
     IC, "every value of the symbolic coefficients for each listed size, degree and truncation order",
     TESTS + "operands of full degree only.",
     [S2 + "lower_triangular_toeplitz_lzz_pX.cpp", S2 + "circulant_row_lzz_pX.cpp", S2 + "toeplitz_like_minus_lzz_pX.cpp", S2 + "sylvester_lzz_pX.cpp", S2 + "structured_lzz_pX.cpp"],
     [("structured products", S2 + "circulant_row_lzz_pX.cpp"), ("Sylvester truncated inverse", S2 + "sylvester_lzz_pX.cpp")])
prop("P19", "Bivariate polynomials: arithmetic, Kronecker substitution, resultants",
     "Bivariate polynomials are always in canonical form (no zero leading coefficient) after any operation, and their degrees, equality, evaluation, sums, products (naive and Kronecker, fresh, reused or aliased output), shifts and truncations in either variable, coefficient assignment and Kronecker packing/unpacking agree with the schoolbook definitions, including for the zero polynomial. The evaluation/interpolation resultant, whenever it reports success, is exactly the determinant of the Sylvester matrix whatever random points it drew; the Villard-style variants, on generic input, return the resultant up to a non-zero constant (or, when their Monte Carlo determinant is unlucky, a divisor of it).",
     IC, "every value of the symbolic coefficients (and of the library's own random draws in the listed configurations) for each listed bidegree",
     TESTS + "no test compares any bivariate result with a reference apart from timing printouts.",
     ["ntl-extras/lzz_pXY/src/lzz_pXY.cpp", "ntl-extras/lzz_pXY/lzz_pXY.h"],
     [("bivariate arithmetic", "ntl-extras/lzz_pXY/src/lzz_pXY.cpp"), ("bivariate resultant", "ntl-extras/lzz_pXY/src/lzz_pXY.cpp")])
prop("P20", "Sequences of polynomials: products, cancellation test, annihilating ideals",
     "Products of (module) sequences of polynomials modulo x^d by univariate and bivariate polynomials, truncated or not, agree with the definition; the cancellation test accepts a candidate exactly when every complete window of the sequence cancels. For every sequence satisfying a monic recurrence of order at most n/2 modulo x^d, the Kurakin algorithm, its modified and module variants, and fill_in return d generators whose leading coefficients are x^0, ..., x^(d-1), each annihilating the sequence and of minimal degree for its leading coefficient. The generators from the basis-based Berlekamp-Massey variants cancel the windows they are built from, and minpoly_nondegenerate returns a polynomial annihilating the sequence whenever the Hankel matrix at x = 0 is invertible.",
     IC, "every value of the symbolic coefficients of recurrence and initial terms, for each listed length, order and precision",
     TESTS + "the sequence tests print generators and use the library's own cancellation test, which accepted everything.",
     ["ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp", "ntl-extras/lzz_pX_seq/lzz_pX_seq.h"],
     [("annihilators of sequences", "ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp")])
prop("P21", "Block-Wiedemann sequences and reconstruction of denominators",
     "For a modulus g of degree n and any a, the powers t*a^(s*i) mod g are exact, their upper products are rev(power)/rev(g) modulo x^(n-1), and gen_sequence (for n >= 2m+1 and g(0) non-zero) and the naive variant return exactly the m x m coefficient blocks of x^i a^k mod g, for every a including constants and zero. For arbitrary matrix evaluations at distinct (general or geometric) points, the reconstructed denominator has its pivots on the diagonal and each row times the evaluations is interpolated by a numerator of smaller degree; for the evaluations of a reduced scalar fraction N/D with enough points it is D up to a constant.",
     IC, "every value of the symbolic coefficients of g, a, t and of the evaluations, for each listed degree, block size and number of points",
     TESTS + "the sequence functions are only compared with each other, on random input above the FFT threshold.",
     ["ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp"],
     [("block-Wiedemann sequences", "ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp")])
prop("P24", "Magma and Sage output denotes the printed value",
     "What the magma_* and sage_* functions print (declarations, vectors, matrices, polynomials, vectors and matrices of polynomials, with default or chosen indeterminate, as an expression or as an assignment) is, read with the syntax of the target system and the declared names only, an expression whose value is exactly the printed object, including empty objects, zero polynomials and extreme integers.",
     IC, "every value of the symbolic coefficients, for each listed size, indeterminate and assigned name",
     TESTS + "nothing reads the output back.",
     ["ntl-extras/magma_output/src/magma_output.cpp", "ntl-extras/sage_output/src/sage_output.cpp"],
     [("Magma output", "ntl-extras/magma_output/src/magma_output.cpp"), ("Sage output", "ntl-extras/sage_output/src/sage_output.cpp")])
F = "flint-extras/src/"
FL = "FLINT itself is not installed: the flint-extras sources are compiled against a stand-in of the FLINT types and functions they use, written from FLINT's documentation (symflint/). "
prop("P25", "flint-extras: degrees, pivots, leading matrices and form predicates",
     "For every polynomial matrix and shift, the row/column degrees, degree matrices, pivot indices and profiles, and leading matrices, in all four orientations, equal their definitions (including zero rows and columns), and the form predicates (reduced, weak Popov ordered or not, Popov, lower/upper echelon, Hermite, and the common get/is form entry points) hold exactly for the matrices satisfying the definition.",
     IC, "every value of the symbolic coefficients for each listed shape, degree bound, orientation and shift", TESTS + FL + "the flint-extras tests do not run in this environment.",
     [F + "nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c", F + "nmod_poly_mat_extra/nmod_poly_mat_is_form.c", F + "nmod_poly_mat_forms.h"],
     [("pivots and leading matrices", F + "nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c"), ("form predicates", F + "nmod_poly_mat_extra/nmod_poly_mat_is_form.c")])
prop("P27", "flint-extras: PLUQ, nullspaces, row/column operations, matrix polynomials and conversions",
     "PLUQ factorization returns the rank and factors whose product is the input with unit lower L and upper U, also after expansion from compact storage; the left nullspaces are bases of the nullspace with the documented pivots; row and column rotations and permutations, matrix polynomial arithmetic (set, get, shift, truncate, add, multiply, evaluate, degree, zero/one/constant tests), and conversions between matrix polynomials and polynomial matrices agree with their definitions, with fresh, reused or aliased outputs.",
     IC, "every value of the symbolic entries for each listed shape, length and argument", TESTS + FL + "the flint-extras tests do not run in this environment.",
     [F + "nmod_mat_extra/nmod_mat_pluq.c", F + "nmod_mat_extra/left_nullspace.c", F + "nmod_mat_extra/nmod_mat_rotations.c", F + "nmod_mat_poly_extra/nmod_mat_poly_arith.c", F + "nmod_poly_mat_extra/nmod_poly_mat_utils.c"],
     [("PLUQ and nullspaces", F + "nmod_mat_extra/nmod_mat_pluq.c"), ("matrix polynomials", F + "nmod_mat_poly_extra/nmod_mat_poly_arith.c"), ("polynomial matrix utilities", F + "nmod_poly_mat_extra/nmod_poly_mat_utils.c")])
#END

LEVEL_NOTE = ("Bounded: for every configuration listed in the evidence file the library's own compiled code is executed symbolically (NTL's coefficient type replaced by polynomials over GF(p) in the symbolic inputs), all feasible paths are explored and z3 decides each path condition and each assertion. "
              "Bounds are the listed sizes, degree bounds and primes; configurations not decided completely are listed in the evidence. Trusted: the symbolic NTL layer (validated by replaying each path's model on the real build), z3, g++.")
TECH = "symbolic execution of the real library code over GF(p) with z3 deciding path conditions and assertions; counterexamples replayed on the real build"

def main():
    import configs
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "na"}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]: na.append(dict(property=p["id"], reason=p["na"])); continue
        if not configs._C.get(p["id"]): na.append(dict(property=p["id"], reason="no check yet")); continue
        checks.append(dict(property=p["id"], quick_cmd="python3 driver/check.py --property %s --tier quick" % p["id"],
                           thorough_cmd="python3 driver/check.py --property %s --tier thorough" % p["id"],
                           technique=TECH, level="model_checking", level_note=LEVEL_NOTE))
    m = dict(version=1, setup_cmd="python3 driver/build.py", checks=checks, not_applicable=na, notes="No hooks are needed in /repo: the library sources are compiled unchanged against an overlay of four NTL headers (symntl/include).")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
if __name__ == "__main__": main()
