from mk_meta1 import P, T, N
P('P24', 'Beam layouts: ray matrices of elements, systems and the paths in them',
  "Every element of a beam layout has the ray matrix of its kind (lens -1/f, mirror -2/R or flat, generic with unit determinant, space length over index, interface (n1/n2 - 1)/R and n1/n2, plano-convex, biconvex and mirror stacks from them), and matrix_inv is its inverse; in a reversed system it is the same optics met from the other side. A system is its elements in order of place (ties in the order given, whatever order they were inserted in) with the gaps between them as spaces, cut off at its boundaries; systems nest. Matrices between any two places (ends, sides of elements, beam targets, inside nested systems) compose: from a to b is the matrix to b times the inverse of the matrix to a; matrices to a position inside a gap, in a thick space or outside agree with them; positions of targets and elements are where they were put. A layout that grows after it was read gives the answers of the new layout.",
  ['inputs', 'configurations', 'histories'], "all places, focal lengths, radii, indices and lengths, both directions, all pairs of places, insertion before and after reading",
  "Each pair of places takes a branch of its own, reversal and truncation another; the tests run one layout forward and one reversed and compare an overlap.",
  ['phasor/alm/bases.py', 'phasor/alm/system.py', 'phasor/alm/space.py', 'phasor/alm/composites.py', 'phasor/alm/utils.py', 'phasor/alm/target.py'],
  [('elements', 'phasor/alm/bases.py, phasor/alm/space.py, phasor/alm/composites.py'), ('systems', 'phasor/alm/system.py')], technique=T, note=N)
P('P25', 'Gaussian beams: parameters, propagation, Gouy phase, overlap',
  "A beam parameter q = Z + i ZR keeps its waist, size, curvature, divergence and wavelength consistent, from whichever it is built. Optics with matrix (A B; C D) take it to (A q + B)/(C q + D), its wavelength by the determinant, and add the Gouy phase of conj(A + B/q) to its phasor; propagation composes, distances add. The overlap of two beams has power 4 ZR1 ZR2/|q2* - q1|^2, is 1 for a beam with itself, conjugate the other way round, and unchanged by common optics. The reversed beam has opposite place and curvature. cplg02, the sensitivity matrix, the resonant beam of a stable resonator (a fixed point of its matrix with positive Rayleigh range) and the profile (unit power, width W) are as defined. In a layout the beam at a target or position, one or many, in any order, is that of its source propagated there; overlaps and relative Gouy phases between targets and positions agree with that; waists are reported where they lie.",
  ['inputs', 'configurations'], "all beams, matrices, distances and places, as numbers or arrays",
  "Signs and conjugates of Gouy phase and overlap show only away from waists; the tests compare absolute overlaps of matched beams.",
  ['phasor/alm/beam_param.py', 'phasor/alm/measurements.py', 'phasor/alm/target.py', 'phasor/alm/utils.py', 'phasor/alm/space.py'],
  [('beam parameter', 'phasor/alm/beam_param.py'), ('measurements', 'phasor/alm/measurements.py'), ('resonators', 'phasor/alm/utils.py, phasor/alm/target.py')], technique=T, note=N)
