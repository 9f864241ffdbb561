from mk_meta1 import P
P('P16', 'Mechanical elements obey their force-displacement laws',
  "Every mechanical element (masses, springs with and without loss angle, dampers, inerters, free and rigid ends, junctions, delay lines, levers of one and three axes, piezo stacks, string ends) relates forces and displacements at its ports by its law, for every parameter value and every frequency of either sign. Rigid links conserve force, torque and the rigid-body constraint; elements between two points carry the same force through; no element converts between frequencies.",
  ['inputs', 'configurations'], "all parameters, all frequencies of both signs, all driving waves, levers of any direction and length",
  "One spring and one damper are tested at one positive frequency; the lever, piezo, string and delay laws are untested and all laws quantify over continua.",
  ['phasor/mechanical/passive.py', 'phasor/mechanical/elements.py', 'phasor/mechanical/xyz.py', 'phasor/mechanical/string.py', 'phasor/transducers/PZT.py', 'phasor/mechanical/smatrix.py'],
  [('mobility to S parameters', 'phasor/mechanical/passive.py'), ('junction', 'phasor/mechanical/elements.py'), ('lever projections', 'phasor/mechanical/xyz.py')])
P('P17', 'Mechanical sources, meters and thermal noise obey their laws',
  "Displacement and force sources impose exactly their driven or DC value whatever they are bonded to, and displacement and force meters read the true displacement, difference and force without disturbing the system. Thermal noise of every damper and lossy spring satisfies the fluctuation-dissipation theorem at every port and in every network, lossless elements contribute none, and explicit displacement and force noise sources appear with their specified density under every one/two-sided convention.",
  ['inputs', 'configurations'], "all stiffnesses, masses, dampings, loss angles, temperatures, frequencies, one- and two-sided conventions",
  "No test covers mechanical noise; the driven and static tests use one fixed circuit each.",
  ['phasor/mechanical/sources.py', 'phasor/mechanical/multimeter.py', 'phasor/mechanical/noise.py', 'phasor/mechanical/ports_driven.py', 'phasor/mechanical/passive.py', 'phasor/readouts/noise.py'],
  [('source ports', 'phasor/mechanical/sources.py'), ('fluctuations', 'phasor/mechanical/noise.py'), ('meters', 'phasor/mechanical/multimeter.py')])
