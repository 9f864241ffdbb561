from mk_meta1 import P, T, N
TM = ("contract-based deductive verification: contracts on the real functions; obligations generated by executing the unmodified /repo code on symbolic edge values over every feasible path; discharged by exact algebra and z3; refutations replayed; larger random systems bounded against numpy")
P('P02', 'The other solver back ends answer the same linear system',
  "The scisparse back end returns, for every keyed linear system with a unique well-conditioned solution, the same drive-to-readout couplings and source solution that the linear system defines (with every purging, scattering and negative option, with or without sources, drives and connecting paths), and the graph back end does so for systems it is documented for (purged on both sides, pivots that do not vanish). The result holds only requested couplings, with adjacency maps that agree with the couplings. "
  "Whole models built from electrical and optical elements give the same readouts with every back end.",
  ['inputs', 'configurations'], "all graphs, all complex edge values, all drive, readout and source sets, all purge, negative and scattering options, each back end",
  "Tests exercise one fixed circuit per back end; agreement is quantified over all systems, and rare shapes (no path, sources with drives, one node) take their own branches.",
  ['phasor/matrix/scisparse_algorithm.py', 'phasor/matrix/graph_algorithm.py', 'phasor/matrix/matrix_generic.py'],
  [('sparse assembly and solve', 'phasor/matrix/scisparse_algorithm.py inverse_solve_inplace'), ('graph reduction', 'phasor/matrix/graph_algorithm.py')],
  technique=TM, note="Obligations are quantified over all edge values; graph shapes are enumerated up to 3 nodes. SciPy's spsolve is an assumed contract (A x = b) in the symbolic obligations and runs itself in the bounded ones. Random systems and whole models are bounded stand-ins. Trusted: CPython, numpy, scipy, z3, the engine in vc/.")
P('P04', 'Keyed sparse matrices and vectors follow matrix algebra',
  "Keyed sparse products, adjoints, copies and unitary bases (SRE functions) are the matrix operations they name, whatever the sparsity: products sum over exactly the shared keys, the adjoint is the conjugate transpose, the adjacency maps always mirror the entries, and operands and copies are independent. KeyMatrix and KeyVector sums, differences, array layouts and their back maps treat missing entries as zero, keep every entry and round trip, and key spaces number each key once.",
  ['inputs'], "all sparsity patterns, all complex (scalar and array) entries, all key sets",
  "Sparse code goes wrong for particular patterns of missing entries; the tests use a handful of dense matrices.",
  ['phasor/matrix/SRE_matrix_algorithms.py', 'phasor/math/key_matrix'],
  [('sparse products and adjoint', 'phasor/matrix/SRE_matrix_algorithms.py'), ("keyed matrices and spaces", "phasor/math/key_matrix/")],
  technique=TM, note="Obligations are quantified over all entry values; key sets are enumerated (up to 2x2x2 products with every sparsity). The orthonormal bases and key spaces are bounded checks. Trusted: CPython, numpy, z3, the engine in vc/.")
P('P11', 'Complex numbers as pairs compute in the complex field',
  "phasor.math.complex.Complex computes in the field of complex numbers: sums, differences, products, quotients (with Complex or plain real or complex numbers on either side), negation, conjugate, modulus, square roots, integer and fractional powers, angles, equality and conversion from complex values agree with complex arithmetic for every value, scalar or array, and leave their operands unchanged.",
  ['inputs'], "all real and imaginary parts, scalar or array, all integer exponents in range",
  "Field laws are quantified over all values; sign and branch errors hide in particular quadrants and exponents.",
  ['phasor/math/complex.py', 'phasor/math/dispatched.py', 'phasor/math/dispatch_defaults.py'],
  [('pair arithmetic', 'phasor/math/complex.py'), ('dispatched functions', 'phasor/math/dispatched.py')], technique=T,
  note="Arithmetic obligations are quantified over all values; integer powers are enumerated; fractional powers and angles are bounded against cmath. Trusted: CPython, numpy, z3, the engine in vc/; machine floats treated as exact numbers.")
