from mk_meta1 import P
TM = ("contract-based deductive verification: contracts (Schur complement, column/row exchange, unitary reflection, graph well-formedness, x = Mx+s) on the real elimination functions; "
      "obligations generated by executing the unmodified /repo code on symbolic edge values over every feasible path of every small graph shape; discharged by exact algebra and z3; refutations replayed; larger random systems bounded against numpy")
NM = ("Obligations are quantified over all edge values; graph shapes are enumerated up to 3 nodes (steps) and 2 nodes (whole solve). Random systems up to 12 nodes are a bounded stand-in (labelled bounded, not counted as proved). "
      "Trusted: CPython, numpy, z3, the engine in vc/; machine floats treated as exact numbers.")
P('P01', 'The default solver returns the exact solution of the linear system',
  "For every sparse keyed linear system that has a unique well-conditioned solution, the default solver (loop_LUQ) returns, for every requested pair of drive and readout, the entry of the inverse of 1 - M (or of M without the scattering convention, with the sign flipped if negative is asked), and for the given sources the solution vector, whatever the graph, the order of elimination, purging options, isolated nodes, zero or missing diagonal, and scalar or array values. Each elimination step (node reduction, row and column pivot, row and column reflection) preserves the solution and keeps the forward and backward adjacency consistent; only requested drives and readouts appear in the result.",
  ['inputs', 'configurations'], "all graphs, all complex edge values (zeros, units, arrays), all drive, readout and source sets, all purge/negative/scattering options",
  "The tests solve a few fixed circuits; correctness of an elimination is quantified over all graphs and values, and bad pivots arise only for special values.",
  ['phasor/matrix/DAG_algorithm.py', 'phasor/matrix/DAG_algorithm_impl.py', 'phasor/matrix/matrix_generic.py'],
  [('node reduction, pivots, reflections', 'phasor/matrix/DAG_algorithm_impl.py'), ('solve', 'phasor/matrix/DAG_algorithm.py inverse_solve_inplace')], technique=TM, note=NM)
