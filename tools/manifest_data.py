from mkmanifest import P, BASEWHY, ORACLE
NA = {}
IN = ["inputs"]
PBT = "property-based testing: "
PROPERTIES = [
P("C01", "Lattice point counts are exact",
  "For every rational polytope given in the LattE format, of full or lower dimension, possibly empty or with redundant, duplicated or "
  "scaled constraints, the counting program reports exactly the number of integer points of the polytope, and the number printed equals "
  "the number written to the result file. An empty polytope is reported as having zero points and an unbounded polyhedron is reported as "
  "unbounded, never as a number.",
  IN, "all polytopes and polyhedra given by integer inequalities and equations",
  BASEWHY + "the count is a sum of large cancelling residues, so a mistake in any stage (equation elimination, vertices, duals, "
  "decomposition, residues) shows only on inputs with the right geometry.",
  ["count.cpp", "preprocess.cpp", "ReadPolyhedron.cpp", "ReadLatteStyle.cpp", "CheckEmpty.cpp", "barvinok/barvinok.cpp", "barvinok/dec.cpp",
   "RudyResNTL.cpp", "ResSingle.cpp", "Residue.cpp", "ProjectUp.cpp"],
  [("elimination of equations", "preprocess.cpp"), ("signed decomposition", "barvinok/barvinok.cpp"),
   ("residue evaluation", "RudyResNTL.cpp"), ("emptiness check", "CheckEmpty.cpp")],
  PBT + "generated polytopes against exhaustive enumeration", ORACLE),
P("C02", "All counting configurations give the same number",
  "For every polytope, every documented combination of counting options (primal, dual or irrational decomposition, the determinant at "
  "which decomposition stops, polynomial or exponential substitution, the tools used for vertex cones, redundancy, triangulation and "
  "dualization, the Smith form method, homogenization and the random seed) reports the same, exact number of integer points.",
  ["inputs", "configurations"], "all polytopes times all documented option combinations",
  BASEWHY + "each with one or a few option sets; combinations of options with inputs that reach their special code (non-unimodular cones, "
  "non-simple vertices, lower dimension) are not covered.",
  ["count.cpp", "countDriver.cpp", "barvinok/barvinok.cpp", "barvinok/SubspaceAvoidingDecomposition.cpp", "Irrational.cpp", "ExponentialSubst.cpp",
   "todd/todd-expansion.cpp", "genFunction/piped.cpp", "genFunction/IntCombEnum.cpp", "dual.cpp", "DualizationWith4ti2.cpp", "VertexConesWith4ti2.cpp",
   "triangulation/triangulate.cpp", "triangulation/RegularTriangulation.cpp"],
  [("exponential substitution", "ExponentialSubst.cpp"), ("irrational decomposition", "Irrational.cpp"),
   ("parallelepiped enumeration", "genFunction/piped.cpp"), ("triangulation", "triangulation/triangulate.cpp")],
  PBT + "generated polytopes and option sets against exhaustive enumeration", ORACLE),
P("C03", "All input formats describe the same polytope",
  "A polytope gives the same exact count whichever documented input form describes it: the LattE hyperplane format with rows in any order and "
  "the linearity and nonnegativity sections in either order, the older option letters for equations and nonnegativity, the cddlib "
  "hyperplane and vertex formats, and the LattE vertex format.",
  IN, "all polytopes times all ways of writing them in the documented input formats",
  BASEWHY + "few of them pair the same polytope in several formats.",
  ["ReadPolyhedron.cpp", "ReadLatteStyle.cpp", "ReadingFile.cpp", "CheckEmpty.cpp", "convert.cpp", "latte_cddlib.cpp", "vertices/cdd.cpp"],
  [("format parsers", "ReadLatteStyle.cpp"), ("polyhedron construction", "ReadPolyhedron.cpp")],
  PBT + "metamorphic re-encodings plus enumeration oracle", ORACLE),
P("C04", "Dilated polytopes are counted exactly",
  "Counting with an integer dilation factor reports the exact number of integer points of the dilated polytope, for full- and "
  "lower-dimensional polytopes, polytopes with rational vertices, and for every documented input form and decomposition method that accepts "
  "a dilation.",
  IN, "all polytopes times all positive dilation factors", BASEWHY + "dilation is tested on a handful of full-dimensional examples.",
  ["ReadPolyhedron.cpp", "count.cpp", "vertices/cdd.cpp"], [("dilation", "ReadPolyhedron.cpp"), ("dilation of cones", "count.cpp")],
  PBT + "generated polytopes and factors against enumeration of the dilate", ORACLE),
P("C05", "The multivariate generating function is that of the polytope",
  "The multivariate generating function written by the counting program equals, as a rational function, the sum of the monomials of all integer "
  "points of the polytope, for full- and lower-dimensional polytopes and for every documented decomposition option.",
  IN, "all polytopes times decomposition options", BASEWHY + "the generating function is compared textually for a few files at most.",
  ["TrivialSubst.cpp", "genFunction/maple.cpp", "ProjectUp.cpp", "genFunction/piped.cpp", "barvinok/barvinok.cpp"],
  [("writing of the generating function", "genFunction/maple.cpp"), ("undoing the elimination of equations", "ProjectUp.cpp")],
  PBT + "the written rational function is evaluated at random exact points and compared with the enumerated monomials",
  ORACLE + " Equality of rational functions is decided at random points modulo primes."),
P("C06", "Ehrhart polynomials are exact",
  "For every integral polytope, of full or lower dimension, the Ehrhart polynomial printed by the counting program takes at every nonnegative "
  "integer the exact number of integer points of that dilate, and its degree is the dimension of the polytope.",
  IN, "all integral polytopes times documented options", BASEWHY + "polynomials are checked for a few files.",
  ["ExponentialEhrhart.cpp", "ResSingle.cpp", "count.cpp", "Residue.cpp"], [("Ehrhart polynomial", "ExponentialEhrhart.cpp")],
  PBT + "coefficients against exact interpolation of enumerated dilates", ORACLE),
P("C07", "Ehrhart series and its Taylor terms are exact",
  "For every rational polytope, the Ehrhart series written by the counting program is the rational function whose coefficients are the exact "
  "numbers of integer points of the dilates, and the requested first terms of its Taylor expansion are these numbers.",
  IN, "all rational polytopes, number of terms at least two", BASEWHY + "the series is exercised on a few files.",
  ["ResSingle.cpp", "RudyResNTL.cpp", "genFunction/maple.cpp", "count.cpp"], [("Taylor expansion", "ResSingle.cpp"), ("univariate series", "genFunction/maple.cpp")],
  PBT + "series expansion against enumerated dilates", ORACLE),
P("C08", "Volumes are exact",
  "For every full-dimensional rational polytope, in every input format and with every documented option, each method of the volume computation "
  "reports the exact Euclidean volume, so the triangulation and the cone decomposition method agree.",
  IN, "all full-dimensional rational polytopes times formats times options", BASEWHY + "volumes of a handful of integral polytopes are checked.",
  ["valuation/PolytopeValuation.cpp", "valuation/valuation.cpp", "valuation/Perturbation.cpp", "rational.cpp"],
  [("volume", "valuation/PolytopeValuation.cpp"), ("perturbation of linear forms", "valuation/Perturbation.cpp")],
  PBT + "generated polytopes against an independent triangulation", ORACLE),
P("C09", "Integrals of polynomials are exact",
  "For every full-dimensional rational polytope and every polynomial with rational coefficients, each method (triangulation, cone decomposition, "
  "products of linear forms) reports the exact integral of the polynomial over the polytope, also when monomials are repeated, constant or cancel.",
  IN, "all full-dimensional rational polytopes times polynomials times methods and options",
  BASEWHY + "integrals of random monomials over hyperrectangles are compared with a closed formula.",
  ["valuation/PolytopeValuation.cpp", "valuation/valuation.cpp", "valuation/Perturbation.cpp", "integration/newIntegration.cpp", "integration/residue.cpp",
   "integration/PolyTrie.cpp", "rational.cpp"],
  [("decomposition into powers of linear forms", "integration/PolyTrie.cpp"), ("integration over simplices", "integration/newIntegration.cpp"),
   ("integration over cones", "valuation/PolytopeValuation.cpp"), ("residues for singular forms", "integration/residue.cpp")],
  PBT + "generated polytopes and polynomials against the exact integral over an independent triangulation", ORACLE),
P("C10", "Integrals of linear forms and their products are exact",
  "For every full-dimensional rational polytope, each method reports the exact integral of every sum of powers of linear forms and of every sum "
  "of products of distinct positive powers of linear forms, also when forms vanish at vertices, along edges, or identically.",
  IN, "all full-dimensional rational polytopes times integrands times methods", BASEWHY + "the singular cases depend on the position of the form relative to the cones.",
  ["valuation/PolytopeValuation.cpp", "valuation/valuation.cpp", "valuation/Perturbation.cpp", "integration/newIntegration.cpp", "integration/residue.cpp",
   "integration/PolyTrie.cpp"],
  [("perturbation", "valuation/Perturbation.cpp"), ("products of linear forms", "integration/newIntegration.cpp")],
  PBT + "generated polytopes and linear forms against the exact integral over an independent triangulation", ORACLE),
P("C11", "Integer optimisation returns the true optimum",
  "For every polytope of positive dimension containing an integer point and every integer cost vector, the maximisation and minimisation programs report the true optimal "
  "value over the integer points with either algorithm; the reported solution is feasible and attains the value, and the reported number of "
  "optimal solutions is exact.",
  IN, "all polytopes times cost vectors times the two algorithms and directions", BASEWHY + "a few knapsack examples are maximised with a known optimum.",
  ["maximize.cpp", "minimize.cpp", "count.cpp", "RudyResNTL.cpp", "binarySearchIP.cpp", "IntegralHull.cpp", "preprocess.cpp"],
  [("digging", "RudyResNTL.cpp"), ("binary search", "binarySearchIP.cpp")],
  PBT + "generated integer programs against enumeration", ORACLE),
P("C12", "Top coefficients of knapsack quasi-polynomials are exact",
  "For every list of positive integers with greatest common divisor one, the requested top coefficients of the quasi-polynomial counting the "
  "nonnegative integer combinations that sum to a target are exact for every target: summed, they equal the exact counting function when all "
  "are requested.",
  IN, "all lists of positive integers times number of coefficients times evaluation targets", BASEWHY + "knapsacks have a few recorded outputs.",
  ["top-knapsack/TopKnapsack.cpp", "top-knapsack/PeriodicFunction.cpp", "top-knapsack/Driver.cpp", "genFunction/piped.cpp", "todd/gmp_pow.cpp"],
  [("poles and gcds", "top-knapsack/TopKnapsack.cpp"), ("step polynomials", "top-knapsack/PeriodicFunction.cpp")],
  PBT + "generated lists, evaluated quasi-polynomial against a dynamic-programming count", ORACLE),
P("C13", "Format converters preserve the polytope",
  "The converters from the LattE hyperplane and vertex formats to the cddlib formats, and from the cddlib hyperplane format (also with fractions) to "
  "the LattE format, write a file in the target format with the same constraints or generators up to positive scaling and the same linearity, "
  "including nonnegativity sections and numbers of any size, so that converting and converting back describes the same polyhedron.",
  IN, "all constraint and generator matrices in the two formats", BASEWHY + "no converter is tested.",
  ["latte2ine.cpp", "latte2ext.cpp", "convertCDD_ine_to_latte.cpp", "ReadLatteStyle.cpp", "rational.cpp"],
  [("LattE to cddlib", "latte2ine.cpp"), ("cddlib to LattE", "convertCDD_ine_to_latte.cpp")],
  PBT + "round trips and an independent reading of the output", ORACLE),
P("C14", "Triangulations cover the cone exactly",
  "For every full-dimensional pointed cone, given by generators some of which may be redundant, each triangulation tool (cddlib, 4ti2, topcom, cdd, "
  "delone) with any distribution of heights returns simplicial cones at the given apex which are spanned by given generators, have disjoint interiors and "
  "together cover the cone, with their correct facets and determinants; nonsimplicial subdivisions also cover the cone without overlap. "
  "The boundary triangulation program does the same for every facet of the cone.",
  ["inputs", "configurations"], "all full-dimensional pointed cones times triangulation tools and height options", BASEWHY + "triangulations are tested on two or three cones by counting.",
  ["triangulation/triangulate.cpp", "triangulation/RegularTriangulation.cpp", "triangulation/RegularTriangulationWithCddlib.cpp",
   "triangulation/RegularTriangulationWith4ti2.cpp", "triangulation/TriangulationWithTOPCOM.cpp", "triangulation/BoundaryTriangulation.cpp",
   "triangulation/test-triangulation.cpp", "triangulation/triangulate-boundary.cpp"],
  [("regular triangulation", "triangulation/RegularTriangulation.cpp"), ("tools", "triangulation/triangulate.cpp")],
  PBT + "validity predicate (exact volumes, facets and random interior points) on the returned cones", ORACLE),
P("C15", "Cone files and staged computation agree with direct counting",
  "The cones which the cone conversion program writes for a full-dimensional polytope, given in any input form and with any vertex cone tool, are its supporting "
  "cones: every vertex once, with primitive edge directions and facet normals, or the cone over the polytope in homogenized mode. Counting continued from "
  "cone files (vertex cones, the homogenized cone, its dual, and triangulations of the dual as cone lists or subcone files) reports the exact number of "
  "integer points, for every counting option available there.",
  IN, "all polytopes and cones times the file-based stages", BASEWHY + "cone files are exercised on single examples.",
  ["polyhedron-to-cones.cpp", "print.cpp", "cone_consumer.cpp", "ReadSubcones.cpp", "ReadPolyhedron.cpp", "count.cpp"],
  [("cone files", "ReadSubcones.cpp"), ("printing", "print.cpp")],
  PBT + "written cones against an independent vertex and cone oracle, staged counts against enumeration", ORACLE),
P("C16", "Hilbert bases are exact",
  "For every pointed rational cone, of full or lower dimension, the Hilbert basis program lists, without repetition, integer points of the cone that together "
  "with the given generators contain every irreducible integer point, in every mode (with or without initial triangulation, triangulation or subcones files, "
  "subdivision by number of facets, enumeration). Without subdivision it lists exactly the Hilbert basis, otherwise that of each non-unimodular cone of the "
  "triangulation it writes, and the triangulation and subcones files cover the cone. Of given subcones, those too large are subdivided and the others listed untouched; "
  "given heights yield exactly their regular subdivision.",
  IN, "all pointed rational cones times options", BASEWHY + "Hilbert bases are computed for a few cones, comparing sizes.",
  ["normalize/normalize.cpp", "normalize/normalize_main.cpp", "dual.cpp", "DualizationWith4ti2.cpp", "latte_4ti2_zsolve.cpp", "ReadSubcones.cpp", "cone_consumer.cpp"],
  [("recursive computation", "normalize/normalize.cpp"), ("subcones files", "ReadSubcones.cpp")],
  PBT + "generated cones against brute-force irreducibles", ORACLE),
P("C17", "The exact algebra kernels obey their laws",
  "The library's exact kernels hold their laws on all arguments: the signed decomposition of a simplicial cone (dual, primal and irrational) preserves its "
  "generating function and stops at the requested determinant; dualization is exact; the points enumerated in a parallelepiped are a complete set of residues; "
  "Smith normal forms are diagonal with unimodular factors; the polynomial and linear-form containers load, multiply, truncate and decompose as polynomials do; "
  "rational vectors, Todd polynomials, Taylor coefficients, powers, interpolation and step polynomials are exact.",
  IN, "all kernel inputs", BASEWHY + "kernels are not tested directly.",
  ["barvinok/barvinok.cpp", "barvinok/dec.cpp", "genFunction/piped.cpp", "genFunction/matrix_ops.cpp", "integration/PolyTrie.cpp", "integration/multiply.h",
   "rational.cpp", "ramon.cpp", "todd/todd-expansion.cpp", "todd/gmp_pow.cpp", "interpolation/PolynomialInterpolation.cpp", "top-knapsack/PeriodicFunction.cpp"],
  [("decomposition", "barvinok/barvinok.cpp"), ("parallelepipeds", "genFunction/piped.cpp"), ("tries", "integration/PolyTrie.cpp")],
  PBT + "a C++ harness runs the library on generated arguments; algebraic laws and reference models decide", ORACLE),
P("C18", "Malformed input is rejected without a result",
  "A LattE-style H- or V-representation that is truncated, has non-numeric entries, zero denominators, fractional H-entries, wrong dimensions or unknown keywords, or refers to "
  "constraints or variables that do not exist is rejected with a diagnostic and a nonzero status by the counting, Ehrhart, integration and LattE-to-cdd conversion programs: none reports a "
  "number, writes a converted file, hangs or corrupts memory.",
  IN, "all byte-level and structural corruptions of valid input files", BASEWHY + "no malformed input is tested.",
  ["ReadLatteStyle.cpp", "CheckEmpty.cpp", "ReadPolyhedron.cpp", "ReadingFile.cpp"],
  [("format checks", "ReadLatteStyle.cpp")],
  PBT + "structured mutation of valid files", ORACLE),
P("C19", "Counts respect unimodular maps, products and unions",
  "The count of a polytope is unchanged by unimodular maps, integer translation, permutation of coordinates, and adding implied constraints; "
  "counts multiply over products, add over the two parts of an integer cut, and satisfy closed formulas, also for numbers of hundreds of digits.",
  IN, "all polytopes, including ones far beyond enumeration, times transformations",
  BASEWHY + "large inputs beyond enumeration and their transforms are not compared.",
  ["count.cpp", "preprocess.cpp", "barvinok/barvinok.cpp", "ResSingle.cpp", "RudyResNTL.cpp", "ExponentialSubst.cpp"],
  [("residues", "RudyResNTL.cpp"), ("lattice reduction", "barvinok/barvinok.cpp")],
  PBT + "metamorphic relations and closed formulas on inputs too large to enumerate",
  "Closed formulas (Brion-free) and relations between runs; a fault common to both sides of a relation is invisible."),
P("C20", "Valid runs are memory-safe and independent of leftovers",
  "On valid input the programs perform no out-of-bounds access, use of freed memory or undefined conversion, and their results do not depend on files "
  "left in the working directory by earlier runs, so any sequence of runs in one directory yields the results of isolated runs.",
  ["inputs", "histories"], "all valid inputs and all sequences of runs in one working directory", BASEWHY + "each is run alone, without sanitizers.",
  ["count.cpp", "vertices/cdd.cpp", "latte_system.cpp", "CheckEmpty.cpp", "preprocess.cpp", "valuation/PolytopeValuation.cpp"],
  [("temporary files", "vertices/cdd.cpp"), ("system interface", "latte_system.cpp")],
  PBT + "sanitizer build over generated inputs; generated run histories compared with isolated runs", ORACLE),
P("C21", "Batch integration over simplices is exact",
  "The batch integration programs, given a file of pairs of an integrand (a rational polynomial or sum of powers of linear forms) and a simplex with integer "
  "vertices, write for every pair, in order, the exact integral of the integrand over the simplex as numerator and denominator; terms may repeat or cancel and "
  "linear forms may vanish on faces.",
  IN, "all lists of integrands and simplices in all dimensions", BASEWHY + "these programs are run on random input without comparing exact values.",
  ["integration/burstInt.cpp", "integration/blockInt.cpp", "integration/integrateDemo.cpp", "integration/newIntegration.cpp", "integration/residue.cpp", "integration/PolyRep.cpp",
   "integration/PolyTrie.cpp", "integration/blockReps.h", "integration/iterators.h"],
  [("simplex formulas", "integration/newIntegration.cpp"), ("residues", "integration/residue.cpp"), ("term blocks", "integration/PolyRep.cpp")],
  PBT + "generated integrands and simplices against exact integration in Python", ORACLE),
P("C22", "The stand-alone Ehrhart programs are exact",
  "The ehrhart program prints the exact numbers of integer points of the first dilates of a rational polytope as the terms of its Ehrhart series, or writes a "
  "rational function with exactly that series; the interpolation program turns values of a polynomial with constant term one into exactly that polynomial and the "
  "number of its negative coefficients, so that both together give the Ehrhart polynomial of an integral polytope.",
  IN, "all polytopes times the number of terms; all polynomials", BASEWHY + "the ehrhart programs are not tested.",
  ["ehrhart.cpp", "ehrhart3.cpp", "interpolation/PolynomialInterpolation.cpp", "ResSingle.cpp", "Residue.cpp", "barvinok/barvinok.cpp", "preprocess.cpp", "ReadingFile.cpp"],
  [("series", "Residue.cpp"), ("terms", "ResSingle.cpp"), ("interpolation", "interpolation/PolynomialInterpolation.cpp")],
  PBT + "generated polytopes against enumerated dilates, generated polynomials against their coefficients", ORACLE),
P("C23", "Aggregation of constraints keeps the integer solutions",
  "The aggregation program replaces the chosen rows (equations and inequalities with nonnegative data over nonnegative variables) by one equation and nonnegative "
  "slack variables such that an integer point satisfies the original system exactly when it extends to a solution of the new one, and then by unique slacks.",
  IN, "all integer systems and choices of rows", BASEWHY + "the aggregation program is not tested.",
  ["aggregation/aggregation.cpp", "ReadLatteStyle.cpp"], [("Kannan aggregation", "aggregation/aggregation.cpp")],
  PBT + "generated systems; every point of a box, with right and wrong slacks, is tested in the old and the new system", ORACLE),
]
