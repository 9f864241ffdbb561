from mk_meta1 import P, T, N
TB = ("contract-based deductive verification: contracts on the real functions; obligations generated by executing the unmodified /repo code on symbolic values over every feasible path and discharged by exact algebra and z3; refutations replayed; network shapes beyond the enumerated ones are bounded checks against an independent least fixed point")
P('P03', 'Purging and sparsity remove exactly the fields that cannot matter',
  "Purging a system keeps exactly the nodes reachable from the drives and sources (and that reach the readouts), keeps every coupling and value between kept nodes, keeps forward and backward adjacency in agreement, drops only drives and readouts that no coupling meets, and never changes an answer. The sparsity graph of a nonlinear system opens a product's couplings exactly when the fields it needs can be excited, and everything such a product needs is solved for.",
  ['inputs', 'configurations'], "all graphs, all drive, source and readout sets, all networks of products",
  "The purge is a graph property over all topologies (cycles, dead ends, dark fields); tests run a few fixed systems.",
  ['phasor/matrix/matrix_generic.py', 'phasor/system/matrix_algorithm.py', 'phasor/matrix/DAG_algorithm.py'],
  [('colouring purge', 'phasor/matrix/matrix_generic.py'), ('sparsity graph', 'phasor/system/matrix_algorithm.py _coherent_sparsity_graph')],
  technique=TB, note="Symbolic obligations cover the solver with purging for all edge values on enumerated shapes; the purge functions are decided by exhaustive graphs of 3 nodes and random larger ones (bounded). Trusted: CPython, numpy, z3, the engine in vc/.")
P('P05', 'The solved system is the superposition of what the elements declare',
  "For every set of elements, the system that is solved is exactly x = M x + s, where M[a, b] at each pair of frequencies is the sum of all couplings the elements declared there (cancelling couplings count as absent), s the sum of all declared sources, and every bond passes the field of a port unchanged, at every frequency, to every port bonded to it, where contributions add. The driven solution satisfies it, and the coupling solution satisfies G = 1 + M G between all requested drives and readouts.",
  ['inputs', 'configurations'], "all coupling and source values, repeated or cancelling declarations, any bonds and feedback, any frequency conversions",
  "Superposition is quantified over all declarations; double counting or dropping appears only for repeated, cancelling or fanned-out couplings.",
  ['phasor/system/solver_algorithm.py', 'phasor/system/matrix_algorithm.py', 'phasor/system/system.py', 'phasor/system/matrix_injections.py'],
  [('matrix and source assembly', 'phasor/system/solver_algorithm.py'), ('declarations', 'phasor/system/matrix_algorithm.py')], technique=T, note=N)
P('P06', 'Products of fields settle at the nonlinear solution with exact derivatives',
  "Every nonlinear coupling (product of two fields, optionally divided by a function of other fields; couplings and sources multiplied by fields) reproduces the product at the settled point and linearises as its exact derivative, uses only fields it declares, and vanishes without a field it declares as necessary. The iterated driven solution satisfies the nonlinear equations, with an exact order when one is asked, and small-signal responses are the derivatives of the settled solution, without mixing sidebands.",
  ['inputs', 'histories'], "all field and coupling values, chains, squares and loops of products, any settled order",
  "Linearisation and convergence are properties over all operating points; the tests check single points to loose tolerances.",
  ['phasor/system/matrix_injections.py', 'phasor/system/solver_algorithm.py', 'phasor/system/matrix_algorithm.py'],
  [('products', 'phasor/system/matrix_injections.py'), ('iteration', 'phasor/system/solver_algorithm.py _perturbation_iterate, driven_solution_get')], technique=T, note=N)
P('P07', 'Every frequency that can arise at a port is resolved there, and no other',
  "For every network of elements, the set of frequency keys at each port is the least one that contains all requested keys (sources, drives, readouts), is carried across bonds in both directions, and is closed under the conversions of every element within the order limits of each frequency; it does not depend on the order in which requests arrive, elements watching a port are told every key there, and readout and drive sets hold what was registered. The frequency of a key is the sum of its multiples and wavelengths.",
  ['inputs', 'histories', 'configurations'], "all networks, conversions, products, order limits and request orders",
  "A missing sideband only shows for particular topologies and arrival orders, and silently changes results.",
  ['phasor/system/ports_algorithm.py', 'phasor/system/system.py', 'phasor/base/dictionary_keys.py'],
  [('propagation', 'phasor/system/ports_algorithm.py'), ('order limits and extraction', 'phasor/system/system.py')], technique=TB,
  note="Frequency extraction is discharged for all values; the closure is decided against an independent least fixed point on enumerated and random networks (bounded). Trusted: CPython, numpy, z3, the engine in vc/.")
P('P08', 'Frequency and dictionary keys form a consistent algebra',
  "Frequency keys add, subtract, negate and multiply as integer combinations of frequencies; equal combinations are equal and hash equally however they were built (zero multiples never stored), their frequency is the sum of multiples, and operands are unchanged. Dictionary keys are immutable partial maps: union (right wins), intersection, containment, difference, removal, replacement and copies behave as maps with consistent equality and hash.",
  ['inputs'], "all combinations and multiples, all partial maps",
  "Key algebra is quantified over all combinations; a key that compares unequal to itself silently splits a field in two.",
  ['phasor/base/dictionary_keys.py'], [('keys', 'phasor/base/dictionary_keys.py')], technique=T,
  note="Frequency key obligations are quantified over all multiples (2 named frequencies); dictionary keys are decided exhaustively over 3 entries with 2 values (bounded). Trusted: CPython, numpy, z3, the engine in vc/.")
P('P10', 'Priority queues return their items in order under every history',
  "After any sequence of push, pop, replace and pushpop, from any initial items, both priority queues hold exactly the items put in and not taken out, peek and pop give the smallest, replace and pushpop return the smallest before and after insertion respectively, emptiness is reported correctly and Empty is raised only when empty; the thread-safe queue keeps this under concurrent use.",
  ['inputs', 'histories', 'schedules'], "all items and all histories of operations (and thread interleavings)",
  "Correctness is over histories, duplicates and interleavings; elimination order in the solver depends on it.",
  ['phasor/utilities/priority_queue/heap_priority_queue.py'], [('queues', 'phasor/utilities/priority_queue/heap_priority_queue.py')], technique=T,
  note="Obligations are quantified over all item values for histories of up to 3 initial items and 2 operations; longer histories and threads are bounded. Trusted: CPython heapq, z3, the engine in vc/.")
