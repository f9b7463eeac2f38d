import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ['return values of the public functions'],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    return d
A='CommDspy/'
P=[]
P.append(p('C01','PRBS generation is the exact, resumable, maximal-length shift register sequence',
 'For every generating polynomial and non-zero seed the generator emits exactly the bits of the linear feedback shift register defined by them, and the seed it returns continues the sequence without a gap or repetition, however the total length is cut into calls (also beyond one period). For the standard PRBS types (7, 9, 11, 13, 15, 31) the sequence has period 2^n-1, contains every non-zero n-bit window once per period and has 2^(n-1) ones. Iterating bit by bit gives the same sequence as generating in bulk, and generators do not disturb each other.',
 ['inputs','histories'],'every polynomial, every non-zero seed, every length and every cut of the stream into calls',
 'The tests generate a few types once from one seed and compare with stored data; they do not cut the stream, cross a period or vary seeds.',
 [A+'tx/prbs_generator.py',A+'tx/prbs_iterator.py',A+'auxiliary.py'],[('bit loop and period tiling','CommDspy/tx/prbs_generator.py'),('iterator state','CommDspy/tx/prbs_iterator.py'),('standard polynomials','CommDspy/auxiliary.py get_polynomial')],
 [('seed','contents of the delay line, newest bit first','argument and second return value')]))
P.append(p('C02','PRBS checkers report exactly the wrong bits and the right lock verdict',
 'Given a received PRBS stream at any phase with any set of bit errors for which the true phase is still the unique best match, the checker flags exactly the erroneous bit positions, one flag per received bit; correct and erroneous bits add up to the bits received, and lock is reported lost exactly when the number of errors reaches the given threshold. Told that the data is already aligned, it compares with the reference from its start for any length (longer or shorter than a period). The economy checker, which takes its seed from windows of n bits starting in the first n received bits, gives the same verdict for the first window that explains the data with fewer errors than the threshold, including errors located before that window, and reports lost lock exactly when no window does.',
 ['inputs','configurations'],'every PRBS type, phase, length, error pattern and threshold',
 'Tests inject one or two fixed error patterns at one phase; positions around the period border, before the seed window, or counts next to the threshold are not reached.',
 [A+'rx/checker.py',A+'rx/lock_pattern.py'],[('genie alignment and comparison','CommDspy/rx/checker.py prbs_checker'),('seed search','CommDspy/rx/checker.py prbs_checker_economy')]))
P.append(p('C03','Locking a pattern to a signal returns its best-matching rotation',
 'Locking returns a full-length rotation of the given pattern together with the correlation for every rotation; no rotation correlates better with the (first pattern length of the) signal than the returned one. When the signal is the periodic pattern started at any phase and of any length of at least one period (binary or real-valued, any positive gain, moderate noise; for PRBS, fewer than a quarter of the bits wrong), the returned rotation reproduces the signal.',
 ['inputs'],'every pattern, phase, gain, signal length and admissible error pattern',
 'Tests lock one PRBS at one offset; short signals, periodic patterns, offsets at the ends and erroneous signals are not tried.',
 [A+'rx/lock_pattern.py'],[('circular cross-correlation and rotation','CommDspy/rx/lock_pattern.py')]))
P.append(p('C04','Bits to symbols and back is a bijection honouring every bit manipulation flag',
 'Converting bits to symbols of 2^m values and back with the same flags returns the same bits in the same order, for any m, number of symbols and any of the 16 combinations of bit order, MSB, LSB and polarity inversion. Without flags, the first bit of each group is the least significant; the flags reverse the order of the bits in the group, invert the most significant, the least significant, or all bits of each symbol. Sizes which cannot be split are refused or handled as documented, never silently reordered.',
 ['inputs','configurations'],'every bit pattern, alphabet size, block shape and flag combination',
 'Tests cover single flags on short fixed patterns; combinations, single symbols and larger alphabets are not reached.',
 [A+'tx/bin2symbol.py',A+'rx/symbol2bin.py'],[('bit grouping and flags','CommDspy/tx/bin2symbol.py'),('inverse','CommDspy/rx/symbol2bin.py')]))
P.append(p('C05','Mapping and demapping are inverse and use the constellation levels',
 'Mapping sends symbol k to the k-th level (ascending) of the constellation (NRZ -1,1; OOK 0,1; PAM3 -1,0,1; PAM4 -3,-1,1,3), scaled to unit mean power when full scale is asked for, negated when polarity inversion is asked for, or to the caller\'s own levels. Demapping with the same options returns the original integer symbols, for arrays of any shape and for received levels within rounding of the nominal ones. Level tables with the wrong number of levels are refused.',
 ['inputs','configurations'],'every constellation, scale, polarity, custom level table, symbol array and shape',
 'Tests map one vector per constellation; inverse polarity with full scale, 2-D blocks and custom tables are hardly reached.',
 [A+'tx/mapping.py',A+'rx/demapping.py',A+'auxiliary.py'],[('level lookup','CommDspy/tx/mapping.py'),('inverse lookup','CommDspy/rx/demapping.py'),('level tables','CommDspy/auxiliary.py get_levels')]))
P.append(p('C06','Slicer and quantizer return the nearest allowed level for every sample',
 'For any ascending level set and any real input (inside, outside, at or next to thresholds, of any shape) the slicer returns for each sample a level that no other level is nearer than, keeps the shape, defaults to the PAM4 levels, and leaves a sliced signal unchanged. The quantizer does the same for the grid of 2^bits fixed point values (unsigned, signed, or symmetric signed without the most negative value) divided by 2^fraction bits, fraction bits being allowed negative; unknown types are refused.',
 ['inputs','configurations'],'every level set, word length, type and input value',
 'Tests slice one noisy PAM4 vector and quantize one signal; saturation, thresholds, negative fraction bits and other shapes are not covered.',
 [A+'rx/slicer.py',A+'rx/quantiztion.py'],[('threshold comparison','CommDspy/rx/slicer.py'),('level grid','CommDspy/rx/quantiztion.py')]))
P.append(p('C07','Every line and symbol code is undone by its decoder',
 'For Gray (NRZ, OOK, PAM4), differential (all constellations), Manchester, differential Manchester, bipolar and MLT-3 coding, decoding the coded pattern returns the original pattern for every non-empty pattern, length and block shape. The coded symbols always belong to the alphabet the code announces, so that they can be mapped, sliced and demapped in between.',
 ['inputs'],'every input pattern, length, block shape and constellation',
 'Tests use one pattern per code, mostly one-dimensional.',
 [A+'tx/coding.py',A+'rx/decoding.py'],[('coders','CommDspy/tx/coding.py'),('decoders','CommDspy/rx/decoding.py')]))
P.append(p('C08','Line codes follow their coding rules and detect or confine line errors',
 'The coded waveforms obey the rules: neighbouring Gray levels differ in one bit; differential coding sends the running sum modulo the alphabet size; Manchester sends 1 as 10 and 0 as 01; bipolar marks alternate starting from the low level; MLT-3 steps through 0,1,2,1 of its three levels on ones only, starting at level 0; differential Manchester changes level at every bit boundary and mid-bit exactly for zeros. A wrong line symbol is confined or reported: one wrong differential symbol corrupts exactly it and its successor, a Manchester bit without mid-bit transition decodes to 0.5, and bipolar error detection marks exactly the repeated marks with plus or minus 0.5. Coders of binary data refuse data that is not binary.',
 ['inputs','fault_sequences'],'every input pattern and every set of line errors',
 'Tests check one short pattern per code and almost no erroneous line.',
 [A+'tx/coding.py',A+'rx/decoding.py',A+'auxiliary.py'],[('coders','CommDspy/tx/coding.py'),('decoders and error marks','CommDspy/rx/decoding.py'),('Gray table','CommDspy/auxiliary.py')]))
P.append(p('C09','Block codes encode by the generator matrix and decode to a nearest codeword',
 'For every binary generator matrix G, encoding a message block gives message times G over F2, block by block in order. Decoding any received blocks returns, per block, a message whose codeword has the minimum Hamming distance to the received block, so up to (d-1)/2 errors per block are always corrected; with error probabilities requested they are returned per block in line with the number of equally near codewords and the data is unchanged. Data that is not binary or does not fill whole blocks is refused or handled as documented.',
 ['inputs','fault_sequences'],'every generator matrix, message and received word',
 'Tests use one Hamming code with a few error positions.',
 [A+'tx/coding.py',A+'rx/decoding.py',A+'misc/ml_decoding.py'],[('encoder','CommDspy/tx/coding.py coding_linear'),('exhaustive ML search','CommDspy/misc/ml_decoding.py')]))
P.append(p('C10','Convolutional encoding is the shift register machine of its generators',
 'The encoder output equals, bit by bit, the outputs of the shift registers described by the generator patterns, with feedback where it is given and used, starting from the given initial memory (zero by default), for any number of inputs, outputs, memory length and data length. It is linear over F2 from the zero state, causal, independent of the order in which the generator entries are written, and encoding in blocks with the memory handed over equals encoding at once. Malformed feedback descriptions and non-binary data are refused.',
 ['inputs','histories'],'every code (with or without feedback), initial memory, data stream and cut into blocks',
 'Tests encode a few fixed messages with two or three codes and no initial memory.',
 [A+'tx/coding.py',A+'misc/help_functions.py'],[('per input register simulation','CommDspy/tx/coding.py coding_conv')]))
P.append(p('C11','Convolutional decoding finds a path nearest to the received bits',
 'Trellis (Viterbi) decoding returns, for each trace-back block, an input sequence that, from some starting state, encodes to a path of minimum Hamming distance to the received block among all input sequences and starting states; exhaustive maximum likelihood decoding returns such a sequence too. Consequently a non-catastrophic code received without errors, or with few enough errors, is decoded to exactly the data that was sent, for codes with and without feedback; bits after the last whole block are ignored. The error probability, when asked for, is 1 over the number of equally near end states (trellis) or words (exhaustive), and 0 when the best one is unique (trellis) or at distance 0 (exhaustive).',
 ['inputs','fault_sequences'],'every code, received word, number and position of errors and block length',
 'Tests decode two codes with few fixed errors.',
 [A+'rx/decoding.py',A+'misc/ml_decoding.py',A+'misc/help_functions.py'],[('trellis construction','CommDspy/misc'),('add-compare-select and trace back','CommDspy/rx/decoding.py decoding_conv_viterbi'),('codebook search','CommDspy/rx/decoding.py decoding_conv_ml')]))
P.append(p('C12','Framing, rate change and binary helpers match their definitions',
 'Framing a signal gives rows of the asked length, each starting (length - overlap) samples after the previous one, after prepending the asked number of zeros; the last incomplete row is zero padded, or dropped when clipping is asked for. Up-sampling inserts zeros and zero order hold repeats samples; power and RMS are the mean of |x|^2 and its root for real and complex signals. Integer/binary conversions are MSB first and inverse to each other, the list of k-bit words is complete and in counting order, and Hamming distances count differing positions for any integer or boolean type with a minimal index per block.',
 ['inputs'],'every signal, type, shape and parameter',
 'Tests check a handful of small arrays.',
 [A+'auxiliary.py'],[('helpers','CommDspy/auxiliary.py')]))
P.append(p('C13','Processing a signal in chunks equals processing it at once',
 'For pulse shaping, the channel, the CTLE, the FFE/DFE equalizer and the filter objects: feeding a signal in consecutive chunks of any sizes (single samples, shorter than the memory, the whole), handing the returned memory to the next call, gives the same output as one call on the whole signal. Independent streams processed alternately do not influence each other.',
 ['inputs','histories'],'every signal, filter and every cut of it into chunks, and interleavings of streams',
 'Tests run whole signals or one fixed chunk size.',
 [A+'channel/pulse_shaping.py',A+'channel/additive_noise_functions.py',A+'rx/ctle_model.py',A+'rx/ffe_dfe_model.py',A+'misc/help_classes.py'],
 [('memory in / memory out','channel/pulse_shaping.py, channel/additive_noise_functions.py, rx/ctle_model.py'),('FFE and DFE memories','rx/ffe_dfe_model.py'),('filter object state','misc/help_classes.py')],
 [('zi / zi_ffe / zi_dfe','memory handed between chunks','arguments and return values')]))
P.append(p('C14','Filters and the equalizer follow their difference equations',
 'The channel and the filter objects satisfy a[0]y[n] = sum b[i]x[n-i] - sum a[j]y[n-j] for all coefficients (first a coefficient not 1, integer inputs, no memory at all) and given initial memory. The equalizer output is the FFE applied to the samples minus the DFE taps applied to the previous decisions, where the decision is the level nearest to that output (at the sampling phase only when over-sampled, entering the feedback half a symbol later); missing FFE or DFE means a pass-through or no feedback, and memories of the wrong size are refused.',
 ['inputs','configurations'],'every coefficient set, initial memory, level set, over-sampling rate and phase',
 'Tests compare one or two filters with stored outputs.',
 [A+'channel/additive_noise_functions.py',A+'rx/ffe_dfe_model.py',A+'misc/help_classes.py'],[('filters','misc/help_classes.py'),('equalizer loop','rx/ffe_dfe_model.py'),('ISI channel','channel/additive_noise_functions.py')]))
P.append(p('C15','Pulse shapes have their closed form and shaping superposes one pulse per symbol',
 'The rectangular, sinc, raised cosine and root raised cosine pulses equal their closed forms for every over-sampling rate, span, roll-off (including 0 and 1) and time vector, finite and accurate at their removable singularities. A shaped signal has osr samples per symbol and is the sum of one pulse per symbol, delayed by span symbols (the impulse pulse only inserts zeros, without delay), so sinc and raised cosine shaping returns the symbols at the symbol instants. Random jitter displaces whole symbols in time by independent zero-mean Gaussian amounts of the asked deviation; unknown pulses and wrong memory sizes are refused.',
 ['inputs','configurations'],'every pulse, rate, span, roll-off, symbol stream and jitter level',
 'Tests shape one signal per pulse with one or two roll-offs.',
 [A+'channel/pulse_shaping.py'],[('pulse formulas','CommDspy/channel/pulse_shaping.py'),('up-sampling and filtering','CommDspy/channel/pulse_shaping.py pulse_shape'),('jitter re-sampling','CommDspy/channel/pulse_shaping.py')]))
P.append(p('C16','Added noise is white Gaussian with the requested signal to noise ratio',
 'The noise added to a signal or to a channel output is zero-mean, Gaussian, white, independent of the signal and between calls, and its power is the mean power (DC included) of the noise-free signal at that point divided by 10^(SNR/10), for any signal power, shape and SNR. Noise never enters the memory of the channel, and without an SNR no noise is added.',
 ['inputs','configurations'],'every signal, channel and SNR',
 'Tests check the power of one signal at one SNR.',
 [A+'channel/additive_noise_functions.py'],[('noise power computation','CommDspy/channel/additive_noise_functions.py')]))
P.append(p('C17','The CTLE is the bilinear transform of its zeros, poles and DC gain',
 'For any poles and at least one zero, DC gain in dB and sampling rate times over-sampling, the digital CTLE equals the bilinear transform of the analog transfer function with these roots and exactly this gain at DC. Running a signal through the CTLE equals filtering with these coefficients, and a constant input settles to the input times the DC gain.',
 ['inputs','configurations'],'every set of zeros, poles, gain and rate, every frequency',
 'Tests use one parameter set.',
 [A+'rx/ctle_model.py'],[('analog prototype and transform','CommDspy/rx/ctle_model.py')]))
P.append(p('C18','Fractional delay and digital over-sampling interpolate the signal',
 'The Lagrange, sinc and raised cosine delay coefficients for any order, fraction (0 to 1) and direction equal their closed forms on the integer grid around zero; zero delay is the identity and Lagrange is exact for polynomials up to its order. Digital over-sampling keeps the original samples at every osr-th output, puts the interpolated values of the same coefficients between them, and returns matching time axes; unknown methods are refused.',
 ['inputs','configurations'],'every order, fraction, rate, method and signal',
 'Tests over-sample one channel response.',
 [A+'digital_delay.py'],[('coefficients and poly-phase filtering','CommDspy/digital_delay.py')]))
P.append(p('C19','The eye diagram counts every sample once in its time and amplitude bin',
 'An eye diagram has two identical symbol-long halves; in each column the count of an amplitude bin is the number of samples of that time phase falling into that bin of the full-scale range (both ends included), samples outside the range are left out, and with over-sampling the traces are the sinc-interpolated signal. The amplitude axis runs over the full scale, the eye of two recordings in a row is the sum of their eyes, and the logarithmic version is log10(count + 0.1).',
 ['inputs','configurations'],'every signal, over-sampling rate, full scale and quantization',
 'The tests only plot or compare one eye.',
 [A+'eye_diagram.py'],[('histogram per phase','CommDspy/eye_diagram.py')]))
P.append(p('C20','Channel estimation from a PRBS recovers the channel',
 'From a recording of at least one pattern period of a PRBS signal (any phase, NRZ, OOK or PAM4 constellation, scaling, bit order, Gray and polarity options told to the estimator) through a linear channel with a dominant positive main tap, the estimate equals the channel taps at lags -precursors..postcursors; with noise it is the least-squares estimate over the recording averaged per pattern period, and the reported error is the sum of squared residuals. Normalizing divides by the largest tap.',
 ['inputs','configurations'],'every channel, phase, length, PRBS, constellation and flag combination',
 'Tests estimate one channel with one configuration.',
 [A+'channel_estimation.py',A+'rx/lock_pattern.py',A+'misc/least_squares.py'],[('reference building, locking, averaging, LS','CommDspy/channel_estimation.py')]))
P.append(p('C21','Equalizer estimation returns the least-squares optimal FFE and DFE taps',
 'For any reference and signal the estimated FFE and DFE taps minimise the sum of squared errors between the reference and FFE output minus DFE of past reference symbols (plus lambda times the squared taps for ridge), over all rows which lie fully inside the signal; reported error, gain and normalized MSE in dB agree with these taps, and normalizing only moves the largest FFE tap into the gain. From a PRBS recording with the right options the resulting equalizer removes the interference, so slicing its output gives the sent symbols. The general least-squares solver fulfils the optimality conditions of ordinary, ridge and lasso regression (lasso: squared error over twice the number of rows plus lambda times the sum of absolute taps) without hidden intercept and refuses other kinds.',
 ['inputs','configurations'],'every signal, reference, tap numbers, regularization, PRBS and flag combination',
 'Tests estimate one equalizer with one or two tap settings.',
 [A+'equalization_estimation.py',A+'misc/least_squares.py'],[('design matrix','CommDspy/equalization_estimation.py'),('solvers','CommDspy/misc/least_squares.py')]))
P.append(p('C22','LMS gradients and timing steps equal their definitions',
 'The decision-directed LMS gradient of each FFE tap index i is half the mean, over the samples where the delayed input exists, of error times input delayed by i (negative: advanced), and of each DFE tap j minus half the mean of error times the decision j symbols earlier, in the order asked for, together with the mean squared error; decisions are the nearest levels or the given reference. The soft version uses the mean negative log likelihood of the Gaussian mixture of the levels and its error. The Mueller-Muller step is +1 when the weighted post-cursor correlation exceeds the weighted pre-cursor correlation by at least the tolerance, -1 the other way round, else 0.',
 ['inputs','configurations'],'every signal, level set, tap index list, weight and tolerance',
 'Tests follow one adaptation run.',
 [A+'rx/least_mean_squares.py',A+'rx/clock_data_recovery.py'],[('gradients','CommDspy/rx/least_mean_squares.py'),('timing error','CommDspy/rx/clock_data_recovery.py')]))
P.append(p('C23','Power spectrum analysis is a calibrated Welch estimate',
 'The analyser returns the averaged windowed periodogram (mean removed per segment, power-spectrum scaling, one-sided for real signals) for the resolution bandwidth, overlap, window and zero padding asked for, on the matching frequency axis, scaled by the documented factor of the chosen unit, load and full scale. A sinusoid peaks at its frequency with its power; unknown units are refused.',
 ['inputs','configurations'],'every signal, rate, unit and analyser setting',
 'Tests analyse one signal.',
 [A+'psa.py'],[('segmenting, window and unit scaling','CommDspy/psa.py')]))
P.append(p('C24','Library functions are pure: inputs untouched, repeatable, history independent',
 'No public function changes any of the arrays, lists or dictionaries it is given. Called again with equal arguments it returns equal results, whatever was called in between, whatever the caller did to earlier results, and whatever the state of the global random generator; only the documented noise and jitter functions (and the lasso solver, whose result does not depend on it) draw from the global random generator. Default arguments stay what they are.',
 ['inputs','histories'],'every function, argument set and sequence of calls',
 'Tests call each function on fresh data and look at the result only.',
 [A+'__init__.py',A+'auxiliary.py',A+'tx',A+'rx',A+'channel',A+'misc'],[('copies before in-place work','throughout')]))
P.append(p('C25','A clean link built from the library blocks delivers the sent bits',
 'For every constellation, bit flag, Gray/differential coding, scaling and polarity option, chaining generator, symbol conversion, coding, mapping, pulse shaping, (ISI channel, CTLE, phase search, estimated FFE/DFE), slicer, demapping, decoding and bit conversion returns exactly the sent bits, and the checker reports no error and no lost lock, as long as noise and residual interference stay below half the level distance (with decision feedback: when the feedback starts from correct decisions). Injected symbol errors come out as exactly the bit errors the checker reports (one bit per adjacent-level error with Gray coding), and errors within the power of a channel code do not reach the user.',
 ['inputs','configurations','fault_sequences'],'every combination of blocks and options, data, channel with open eye, and error positions',
 'Each test exercises one block; the two link scripts use one configuration each.',
 [A+'tx',A+'channel',A+'rx',A+'equalization_estimation.py'],[('composition of all blocks','README.md examples')]))
P.append(p('C26','The example simulation link is consistent chunk by chunk',
 'In the example simulation, the decoder undoes the encoder for every combination of coding options; the transmitter sends one continuous PRBS over its chunks, mapped to its levels scaled to the configured amplitude; its channel, CTLE and equalizer fed in chunks equal the library functions on the whole signal; its ADC returns the nearest value of its grid at its sampling phase. Every block starts from the memories and taps it is configured with (by default: zero memories, a single unit tap at the cursor, a shift register of ones, 22 dB SNR) and refuses vectors whose length contradicts the configuration; the seeds of the PRBS generator reproduce its stream from there on. The complete link with a clean channel returns the sent bits, and the checker accumulates exactly the errors and bits of the chunks shown to it.',
 ['inputs','configurations','histories'],'every simulation configuration, chunk size and number of chunks',
 'The example simulation is not tested at all.',
 ['example_simulation/simulation_parts/transmitter.py','example_simulation/simulation_parts/receiver.py','example_simulation/simulation_parts/channel.py','example_simulation/simulation_parts/full_link.py','example_simulation/simulation_parts/data_objects.py','example_simulation/analyzer/analyzer_classes.py'],
 [('state kept between chunks','example_simulation/simulation_parts'),('accumulators','example_simulation/analyzer/analyzer_classes.py')]))
P.append(p('C27','The example receiver adapts by its loop equations and the record is faithful',
 'Chunk after chunk, the example receiver passes its input through CTLE, ADC at the current sampling phase, equalizer with the current taps and digital gain, slicer and decoder, continuing from the previous chunk. While converging, each chunk moves the gain towards equal power of slicer input and levels, the sampling phase by the Mueller-Muller step of the chunk modulo the symbol period, and FFE and DFE taps (with or without DFE) against the decision-directed LMS gradient by the learning rate, taking the ADC output delayed by the precursors; the timing loop stops at a zero step, the LMS loop when the MSE changes by less than its threshold, and convergence is done when both have stopped. Otherwise nothing adapts, and configured vectors are never overwritten. The simulation records one independent copy of every signal and loop state per chunk, in order, and every convergence run, first or repeated, ends once the loops have stopped.',
 ['inputs','configurations','histories'],'every receiver configuration, signal and number of chunks',
 'The example simulation is not tested at all.',
 ['example_simulation/simulation_parts/receiver.py','example_simulation/simulation_parts/simulation.py','example_simulation/simulation_parts/full_link.py','example_simulation/analyzer/analyzer_classes.py'],
 [('adaptation loops','example_simulation/simulation_parts/receiver.py digital_stage'),('record','example_simulation/simulation_parts/simulation.py gather_memory')],
 [('phase, dig_gain, ffe_vec, dfe_vec','loop state of the receiver','example_simulation/simulation_parts/receiver.py')]))
P.append(p('C28','Results depend on the values given, not on how they are stored or passed',
 'Every public function and object gives the same values for the same input values, whether integer-valued data is held in 8, 16, 32 or 64 bit signed integers (bits and symbols also unsigned) or in floating point where both are accepted, whether arrays are contiguous, strided, reversed views, column-major, read-only or of foreign byte order, and whether arguments are passed by position, by name or left to their documented defaults. No intermediate result overflows because the input type is narrow.',
 ['inputs'],'every function, argument values and storage form',
 'Tests pass freshly made contiguous 64 bit arrays in one calling style.',
 [A+'__init__.py',A+'auxiliary.py',A+'tx',A+'rx',A+'channel',A+'misc',A+'psa.py',A+'equalization_estimation.py',A+'channel_estimation.py'],[('conversion of the input before arithmetic','throughout')]))
open(ROOT+'/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import sys
T={}
chk=[]
tech='runtime monitoring: instrumented calls of the real code under randomized hostile workloads, online oracles (reference model / trace specification)'
for x in P:
    i=x['id']
    chk.append(dict(property=i,quick_cmd='./check %s --tier quick'%i,thorough_cmd='./check %s --tier thorough'%i,evidence_file='evidence/%s.json'%i,
      technique=tech,level='exploration',
      level_note='The property held on every execution observed (seeded random workload with boundary-biased inputs; counts in the evidence). Trusts numpy/scipy and the reference models in harness/. Inputs not sampled are not covered.'))
M=dict(version=1,setup_cmd='true',checks=chk,not_applicable=[],notes='No hooks in /repo: the library is observed at its public functions, wrapped by harness/core.py. known_findings.txt lists findings and fixes.')
json.dump(M,open(ROOT+'/MANIFEST.json','w'),indent=1)
