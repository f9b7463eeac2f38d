"""Workload sizes (cases per worker, 8 workers), the evidence rule and the assumptions of every property."""
PROPS = {}

COMMON = ['numpy and scipy compute what they document; the reference models in harness/ref.py are trusted',
          'cases are sampled (seeded), not enumerated: a violation outside the sampled input classes is not seen']


def P(pid, module, quick, thorough, need, rule, assumptions=()):
    PROPS[pid] = dict(module=module, quick=quick, thorough=thorough, need=need,
                      rule=rule + ' A case counts when its digest (all parameters and input data) was not seen before.',
                      assumptions=list(assumptions) + COMMON)


P('C01', 'prbs', 1500, 40000, 1000,
  'Generator and iterator driven with standard and random polynomials, random non-zero seeds and random cuts of the stream, compared bit by bit with a bitwise shift register; full periods checked for balance, distinct windows and maximal length. Non-trivial: at least two calls or a full period.',
  ['PRBS31 is compared over prefixes and chunk borders only: its period (2^31-1) is not run through'])
P('C02', 'checker:C02', 1500, 40000, 1000,
  'PRBS streams at every kind of phase and length with bit errors injected at chosen positions (up to the number for which the pattern is still the unique nearest one); verdict compared with the injected error mask. Non-trivial: every case.',
  ['errors inside the locking window stay below the number at which another phase is as likely'])
P('C03', 'checker:C03', 15000, 60000, 1000,
  'Patterns (random, PRBS, real valued) cyclically shifted, extended, cut, scaled, noisy; the returned shift and correlation compared with a direct computation. Non-trivial: pattern longer than 2.')
P('C04', 'symbols:C04', 7500, 60000, 1000,
  'Bit blocks of random shape, alphabet size and memory layout through all 16 flag combinations, both directions, against a per-bit reference. Non-trivial: more than one symbol.')
P('C05', 'symbols:C05', 15000, 60000, 1000,
  'Every constellation, scale, polarity and user-defined level table; mapping compared with the table, demapping with the inverse, unit power of full scale. Non-trivial: more than one symbol.')
P('C06', 'symbols:C06', 15000, 60000, 1000,
  'Slicer and quantizer fed values on, next to and between levels and far outside, any shape; each decision compared with an exhaustive nearest-level search. Non-trivial: more than one sample.',
  ['values exactly half way between two levels may go either way'])
P('C07', 'linecodes:C07', 7500, 60000, 1000,
  'Random, biased, run-heavy and constant streams in 1-D and 2-D blocks through every coder and its decoder, directly and through mapping/demapping. Non-trivial: more than 2 symbols.')
P('C08', 'linecodes:C08', 15000, 60000, 1000,
  'Code waveforms compared with the coding rules symbol by symbol; single and multiple received errors, their documented detection or confinement; non-binary data refused. Non-trivial: more than 2 symbols.')
P('C09', 'codes:C09', 7500, 60000, 1000,
  'Random full-rank and textbook generator matrices, random messages and received words (0 to n errors); encoding compared with the F2 product, decoding with an exhaustive nearest-codeword search. Non-trivial: at least one block.')
P('C10', 'codes:C10', 8000, 50000, 1000,
  'Random and textbook convolutional codes (1-3 inputs, up to 4 outputs, memory up to 6, with and without feedback, any initial memory), compared bit by bit with a shift register simulation; linearity, causality, hand-over of memory. Non-trivial: more than 2 bits.')
P('C11', 'codes:C11', 1400, 20000, 1000,
  'Random received blocks, clean and erroneous, decoded by the trellis and by exhaustive search; the Hamming distance of the decoded path compared with the minimum over all paths found by an independent dynamic program. Non-trivial: every case.',
  ['when several paths are equally near any of them is accepted'])
P('C12', 'utils:C12', 15000, 60000, 1000,
  'Helpers on random shapes, types and parameters against one-line definitions. Non-trivial: non-empty input.')
P('C13', 'filters:C13', 4000, 50000, 1000,
  'A signal run at once and in random cuts (1 sample to the whole, shorter than the memory, two streams interleaved) with the returned memory handed over; outputs compared sample by sample. Non-trivial: at least two chunks.',
  ['samples within 1e-9 of a decision threshold are not compared (either decision is right)',
   'over-sampled equalizer streaming is compared only where no decision is pending at the border (known finding)'])
P('C14', 'filters:C14', 6000, 50000, 1000,
  'Random stable filters and FFE/DFE tap sets, initial memories and sampling phases against the difference equation evaluated in a plain loop. Non-trivial: more than one sample.',
  ['samples within 1e-9 of a decision threshold are not compared'])
P('C15', 'dsp:C15', 12000, 50000, 1000,
  'Pulses on their grids and on arbitrary time vectors against closed forms (including the removable singularities); shaped signals against direct superposition of the pulse; jitter statistics. Non-trivial: every case.')
P('C16', 'dsp:C16', 2000, 25000, 1000,
  'Noise = output - noise-free output for signals of any power, offset and shape; power, mean, whiteness, independence of the signal and freshness against 6-8 sigma bounds. Non-trivial: at least 1000 samples.',
  ['statistical: deviations of the noise power below about 2 % are not resolved'])
P('C17', 'filters:C17', 7500, 60000, 1000,
  'Random zeros, poles, gains, rates; the digital response evaluated at random frequencies against the bilinear transform of the analog prototype; DC gain; run equals filter. Non-trivial: every case.',
  ['at least one zero is given (the zero-less case is outside the documented use)'])
P('C18', 'dsp:C18', 7500, 60000, 1000,
  'Fractional delay coefficients against closed forms, polynomials and band-limited signals; over-sampled signals keep the input samples and interpolate by the same coefficients. Non-trivial: every case.')
P('C19', 'dsp:C19', 3000, 40000, 1000,
  'Eye diagrams of random signals (amplitudes inside, on and outside the full scale) compared bin by bin with a plain count over the re-sampled traces; additivity over signals. Non-trivial: every case.')
P('C20', 'est:C20', 1500, 40000, 1000,
  'Captures of a PRBS (any phase, length, constellation, flags) through random channels, clean and noisy; estimate compared with the channel and with the normal-equation solution. Non-trivial: every case.',
  ['the main tap dominates, so that locking is unambiguous'])
P('C21', 'est:C21', 4500, 40000, 1000,
  'Random references, signals, tap numbers and regularization; taps compared with an independent least-squares solution, optimality by perturbation, equalized captures sliced and compared with what was sent. Non-trivial: every case.')
P('C22', 'est:C22', 15000, 60000, 1000,
  'Gradients against an index-by-index evaluation of their definition, descent on a real adaptive loop, timing steps against the definition and the direction of a known timing offset. Non-trivial: every case.')
P('C23', 'est:C23', 3600, 30000, 1000,
  'Spectra of random signals against an independent Welch estimate, units, occupied bandwidth, tone frequency and power; bad arguments refused. Non-trivial: every spectrum case.')
P('C24', 'purity:C24', 3000, 40000, 1000,
  'Groups of random calls over all public functions, each repeated in another order after its results were overwritten and the global random generator re-seeded; arguments compared before/after, results with the first ones. Non-trivial: every case.',
  ['aliasing between a result and its own arguments is not judged, only changes made during a call'])
P('C25', 'link:C25', 3000, 40000, 1000,
  'Complete links (generator, coding, mapping, pulse, channel, CTLE, equalizer, slicer, decoding, checker) with random configuration; received bits compared with the sent ones, injected symbol errors with the checker report. Non-trivial: every case.',
  ['the channel leaves the eye open after equalization (interference below half the main tap)'])
P('C26', 'link:C26', 4000, 50000, 1000,
  'The example simulation blocks with random configuration: coder loop-back, continuous transmission, chunk-wise channel/CTLE/equalizer, ADC grid, complete link, error bookkeeping. Non-trivial: several chunks or symbols.',
  ['the adaptation of the example receiver is C27'])
P('C27', 'adapt:C27', 1000, 12000, 1000,
  'Adapting example receivers with random equalizer length, decision feedback, over-sampling, phase, gain and signal, chunk by chunk against an independent model of data path and loops; recorded simulations against snapshots and library runs. Non-trivial: every case.',
  ['chunks in which a decision or a loop threshold lies within 1e-9 of the boundary end the comparison'])
P('C28', 'storage:C28', 5000, 60000, 1000,
  'Random calls of every public function and object, repeated with the same values in other numeric types (signed and unsigned integers of 8 to 64 bits), memory layouts (strided, reversed, column-major, read-only, foreign byte order) and calling styles; results compared with those of the canonical form. Non-trivial: every call with array arguments.',
  ['boolean arrays and lists are not varied: many functions refuse them', 'calls with a near tie (rotation, decision, timing threshold) are left out'])
