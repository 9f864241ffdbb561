from mk_meta1 import P, T, N
P('P18', 'Mirrors and beamsplitters conserve every field, loss and vacuum',
  "A mirror of transmission T_hr, losses L_hr, L_t and backscatter R transmits amplitude sqrt(T_hr - L_t) on both passes, reflects sqrt(1 - T_hr - L_hr - R) with opposite sign from its two sides and with the mirror's phase conjugated between them (and for the conjugate field), into the ports its angle of incidence dictates (same port at normal incidence, the crossed port at an angle, where backscatter returns on the same port with its own phase); flip_sign only exchanges the signs. Vacuum of all losses enters so that the power into every output sums to one, and a lossless mirror is unitary for every phase and however it is lit. Cavities and Michelsons built of them have the textbook powers.",
  ['inputs', 'configurations'], "all transmissions, losses, backscatter, phases, angles, polarizations, sides and light",
  "Energy conservation and commutators hold for every loss budget, phase and lit side; tests use a few lossless mirrors at phase zero lit from one side.",
  ['phasor/optics/mirror.py'], [('mirror couplings', 'phasor/optics/mirror.py system_setup_coupling')], technique=T, note=N)
P('P19', 'Spaces and polarization optics act on each field as their own matrix',
  "A space delays each optical field by exp(-2 pi i (L_m f/c + L_detune_m n/lambda)) (f its sideband frequency, n its multiple of the carrier), conjugated for the conjugate field, in both directions. Rotators turn S and P by a rotation matrix (undone on return), Faraday rotators by one that doubles on return, wave plates multiply each polarization by its own phase (also mounted at any angle), circulators send each port to the next, polarization and wavelength selectors split and recombine exactly the fields they select, and a polarizing mirror acts on each polarization as a mirror of its own.",
  ['inputs', 'configurations'], "all lengths, phases, angles, polarizations, wavelengths and directions of light",
  "Each map is quantified over all parameters and both directions; a wrong entry shows only for the polarization, direction or sideband that uses it.",
  ['phasor/optics/space.py', 'phasor/optics/polarization.py', 'phasor/optics/circulator.py', 'phasor/optics/selectors.py', 'phasor/optics/selective_mirrors.py'],
  [('spaces', 'phasor/optics/space.py'), ('rotators and plates', 'phasor/optics/polarization.py'), ('selectors', 'phasor/optics/selectors.py')], technique=T, note=N)
P('P20', 'Lasers, vacuum and photodetectors count power and photons exactly',
  "A laser of power P emits only at its carrier (multiple, sideband and polarization as asked) the field sqrt(P) exp(i phase) and its conjugate; lasers, terminators and detectors let in half a photon h c n/lambda of vacuum per mode, correlated only between a field and its own conjugate. A photodetector gives at every classical frequency m the sum over polarizations and optical frequencies of conjugate field products, twice for beats and once for the mean, and linearises as the derivative; MagicPD does so for forward light only and passes both directions. Laser, loss and detector give power T P and shot noise h nu P.",
  ['inputs', 'configurations'], "all powers, phases, fields, polarizations, carriers, sidebands and losses",
  "The products range over all pairs of sidebands and polarizations; tests check only the strongest beat of a single polarization.",
  ['phasor/optics/laser.py', 'phasor/optics/vacuum.py', 'phasor/optics/photodiode.py', 'phasor/optics/nonlinear_utilities.py', 'phasor/readouts/noise.py'],
  [('emission', 'phasor/optics/laser.py'), ('vacuum', 'phasor/optics/vacuum.py'), ('detection', 'phasor/optics/photodiode.py, phasor/optics/nonlinear_utilities.py')], technique=T, note=N)
