from mk_meta1 import P, T, N
P('P09', 'Readouts report the responses, loop gains and noise of the network',
  "A readout reports the solved network. An AC readout gives the response of its port at the positive AC frequency to its drive at both signs of it (or the ratio to another port, the closed or open loop gain), a DC readout the real part of the DC field. The noise density of a port is the sum over sources of gain times density times conjugate gain, with every line a source emits on, each source separately available, Hermitian between two ports in either order; a noise-limited sensitivity is density over response, an ASD the root of the PSD. A homodyne readout at an angle gives signal and noise turned by that angle, angles add, no angle beats the optimal sensitivity (from the inverse of the real part of the noise), for real signals and noise the optimal angle attains it, and the noise ellipse has the eigenvalues of the real noise matrix as axes and its conditional minima. Arrays of frequencies give each their own value.",
  ['inputs', 'configurations'], "all couplings between three frequencies, noise densities, signals and angles, single or as arrays",
  "A swapped index, conjugate or sign matters only with correlated complex noise, mixed sidebands or non-zero angle; the tests read single-quadrature, single-source values.",
  ['phasor/readouts/AC.py', 'phasor/readouts/DC.py', 'phasor/readouts/testpoint.py', 'phasor/readouts/noise.py', 'phasor/readouts/homodyne_AC.py'],
  [('AC and DC readouts', 'phasor/readouts/AC.py, phasor/readouts/DC.py, phasor/readouts/testpoint.py'), ('noise', 'phasor/readouts/noise.py'), ('homodyne', 'phasor/readouts/homodyne_AC.py')], technique=T, note=N)
