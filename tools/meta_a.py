from mk_meta1 import P
P('P12', 'Passive electrical elements obey their circuit laws',
  "Every passive electrical element (terminators, series and shunt resistors, capacitors, inductors, admittances and impedances, lines, transformers) relates the voltages and currents at its ports by its circuit law, for every component value and every frequency, positive, negative or zero where the law is defined. "
  "No element couples a wave to a different frequency, and passing arrays of values gives elementwise the result of the scalar values. Composed circuits give the network impedance the laws imply.",
  ['inputs', 'configurations'], "all component values (including 0 and reflectionless values), all signs and harmonics of the drive frequency, all driving waves at the ports, scalars and arrays",
  "The tests compare a handful of component values at positive frequencies; sign, zero, array and multi-frequency behaviour of each law is quantified over a continuum.",
  ['phasor/electronics/passive.py', 'phasor/electronics/smatrix.py', 'phasor/electronics/elements.py', 'phasor/electronics/ports.py'],
  [('S parameters from impedance', 'phasor/electronics/smatrix.py'), ('element admittances', 'phasor/electronics/passive.py')])
P('P13', 'Electrical junctions, sources and meters obey the circuit laws',
  "Ports joined at a node share one voltage and their currents sum to zero, for any number of ports and any way of bonding them. Voltage and current sources impose exactly their driven or DC value whatever the load, cables delay a wave by their length, and voltage and current meters read the true node voltage, voltage difference and branch current without loading the circuit.",
  ['inputs', 'configurations'], "all numbers of joined ports explored per case, all impedances, drives and DC values, all frequencies, all bonding orders listed in the cases",
  "The tests wire a few fixed circuits with fixed values; the laws must hold for every circuit, load and bonding order.",
  ['phasor/electronics/elements.py', 'phasor/electronics/sources.py', 'phasor/electronics/multimeter.py', 'phasor/electronics/passive.py'],
  [('node S matrix', 'phasor/electronics/elements.py'), ('source ports', 'phasor/electronics/sources.py'), ('post/pre pickoff', 'phasor/electronics/ports.py')])
P('P14', 'Amplifiers and op-amps realise their stated gains and impedances',
  "Voltage amplifiers, transimpedance and op-amp elements deliver the stated gain between their input quantity and their output quantity for every gain (any frequency response), input and output impedance, and they do not load or react on their input beyond the stated input impedance. Feedback circuits built from them settle at the algebraic closed-loop value.",
  ['inputs', 'configurations'], "all gains, feedback impedances, source and load impedances and frequencies",
  "Existing tests use one op-amp circuit with fixed resistors; the closed-loop value is a rational function of all gains and impedances.",
  ['phasor/electronics/opamps.py', 'phasor/electronics/elements.py', 'phasor/electronics/sources.py'],
  [('amplifier couplings', 'phasor/electronics/opamps.py')])
P('P15', 'Electrical noise densities and the fluctuation-dissipation theorem',
  "Thermal noise of every resistive electrical element appears at its ports with the one-sided density 4 k T Re(Z) for voltage (4 k T Re(Y) for current), independent of how the element is wired, and lossless elements contribute none. Noise sources appear with their specified density, the density between two readouts is the Hermitian sum over all sources of source density times the two transfer functions, and amplifier voltage and current noise combine with their stated couplings.",
  ['inputs', 'configurations'], "all component values, temperatures, noise densities, frequencies (both signs), one- and two-sided conventions, all pairs of readouts in the cases",
  "Tests check a few circuits at fixed values; the theorem quantifies over every passive network and frequency.",
  ['phasor/electronics/noise.py', 'phasor/electronics/passive.py', 'phasor/readouts/noise.py', 'phasor/electronics/multimeter.py', 'phasor/electronics/opamps.py'],
  [('fluctuation sources', 'phasor/electronics/noise.py'), ('noise readout', 'phasor/readouts/noise.py')])
