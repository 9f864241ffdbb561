from mk_meta1 import P, T, N
P('P21', 'Modulators and moving mirrors make the sidebands and responses they should',
  "An amplitude or phase modulator lets light through untouched and adds at every sideband half of its drive times the light (times i for phase; conjugated for the conjugate field), the same from both sides; without drive it is transparent. Its back-action is the power over c on a phase drive, the conjugate quadrature on an amplitude drive. A mirror moved by z multiplies its reflection by 1 -+ i 2 k cos(AOI) z, opposite from its back, and leaves transmission untouched; the force on a reflecting mirror is a multiple of the momentum of the light it reflects, at every frequency, proportional to cos(AOI), and none on a mirror that does not reflect. End to end, an amplitude drive gives its relative power and a phase drive none, and a moved mirror the derivative of the power it steers. Constant (DC) drives are not claimed.",
  ['inputs', 'configurations'], "all drives, fields, sidebands, reflectivities, angles and directions of light",
  "Each sideband, field conjugate and side is its own coupling: a wrong sign or missing pair shows only for one of them; tests use one sideband from one side.",
  ['phasor/optics/modulators.py', 'phasor/optics/mirror.py', 'phasor/optics/nonlinear_utilities.py'],
  [('modulation', 'phasor/optics/modulators.py'), ('mirror motion and radiation pressure', 'phasor/optics/mirror.py'), ('sideband pairing', 'phasor/optics/nonlinear_utilities.py')], technique=T, note=N)
P('P22', 'Filters, amplifiers and state-space models apply the response they are given',
  "A filter carries each line from its input to the same line of its output with its transfer function at the signed frequency of that line, and no other: the function it was given, a gain, 1/(-i f) for an integrator, 1/(m(w0^2 - w^2 + i w w0/Q)) for a resonance, gain, delay, zeros and poles (complex ones with their conjugates) for a rational filter, with its magnitude equal to the gain at gain_F_Hz if that is set. Lines beyond F_cutoff, below F_cutoff_low, at or above max_freq, and zero frequency with no_DC are dropped, exactly. A response measured at the AC frequency applies there and conjugated at its negative only. Distribution, summing and matrix amplifiers and MIMO filters apply each named gain, a state-space model D + C(s - A)^-1 B, and loops of them close as they should. A signal generator emits amplitude and conjugate at its frequency and harmonics, turned by its phase.",
  ['inputs', 'configurations'], "all frequencies of either sign, gains, roots, delays, cutoffs and matrices, single or as arrays",
  "Negative lines, cutoffs and feed-through terms are used only in mixed systems; no test builds most of these elements.",
  ['phasor/signals/siso_filter.py', 'phasor/signals/ZPSOS.py', 'phasor/signals/amplifiers.py', 'phasor/signals/mimo_filter.py', 'phasor/signals/state_space.py', 'phasor/signals/signal_generator.py'],
  [('filters', 'phasor/signals/siso_filter.py, phasor/signals/ZPSOS.py'), ('amplifiers', 'phasor/signals/amplifiers.py, phasor/signals/mimo_filter.py'), ('state space', 'phasor/signals/state_space.py'), ('generator', 'phasor/signals/signal_generator.py')], technique=T, note=N)
P('P23', 'Mixers, modulators and mean-square detectors multiply the signals they are given',
  "With a line x at f standing for Re(x exp(iwt)) and a DC line for its value, a mixer gives in phase the product of its inputs at every sum and difference frequency and DC, in quadrature the same with the lines of the LO turned by i times the sign of their frequency; a modulator gives its carrier turned by its phase times (1 + amplitude + i sign(f) phase), a frequency input being integrated to phase; a mean-square detector gives the mean square at DC and only there; a harmonic generator the sum of products of lines of one sign. Frequencies of too high an order are dropped, exactly. End to end, two generators at one frequency demodulate to half the real and imaginary parts of conj(a) b, and modulation is recovered by demodulation.",
  ['inputs', 'configurations'], "all complex lines at all orders, DC included, phases and combinations of lines",
  "Every pair of lines is a term of its own with its own factor (DC or not, in or out, sign); tests demodulate one amplitude modulation.",
  ['phasor/signals/mixer.py', 'phasor/signals/RMS.py'],
  [('products', 'phasor/signals/mixer.py'), ('mean square', 'phasor/signals/RMS.py')], technique=T, note=N)
