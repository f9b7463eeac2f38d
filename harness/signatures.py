"""Documented call interface of the public functions: parameter order and default values.

``Ctx.call`` uses it to vary the call style: an argument whose value is the documented default is sometimes left out,
and arguments are passed sometimes by position and sometimes by name.  The oracles judge the result as if everything had
been passed explicitly, so a default or a parameter order that silently changed is observed.
"""
import numpy as np

TABLE = '''
bin2uint bin_tensor
buffer signal length overlap=0 delay=0 clip=False
channel_estimation_prbs prbs_type signal constellation prbs_full_scale=False channel_postcursor=500 channel_precursor=19 normalize=False bit_order_inv=False pn_inv_precoding=False gray_coding=False pn_inv_postcoding=False
dig_delay_lagrange_coeffs n alpha forward=True
dig_delay_rcos_coeffs n alpha forward=True beta=0.5
dig_delay_sinc_coeffs n alpha forward=True
digital_oversample signal_vec osr order method beta=0
equalization_estimation reference_signal signal ffe_postcursor=23 ffe_precursor=4 dfe_taps=0 normalize=False regularization='None' reg_lambda=0
equalization_estimation_prbs prbs_type signal constellation ffe_postcursor=23 ffe_precursor=4 dfe_taps=0 normalize=False regularization='None' reg_lambda=0 prbs_full_scale=False bit_order_inv=False pn_inv_precoding=False gray_coded=True pn_inv_postmapping=False
eye_diagram signal osr_in osr_diag fs_value=1 quantization=256 logscale=False
get_bin_perm k
get_gray_level_vec level_num
get_levels constellation full_scale=False
get_polynomial prbs_type
hamming pattern_block codebook
power signal
rms signal
uint2bin int_tensor n_bits
upsample signal rate
zoh signal hold_idx
tx.PrbsIterator poly_coeff init_seed
tx.bin2symbol bin_mat num_of_symbols bit_order_inv=False inv_msb=False inv_lsb=False pn_inv=False
tx.coding_bipolar pattern
tx.coding_conv pattern G feedback=None use_feedback=None zi=None
tx.coding_differential pattern constellation=PAM4
tx.coding_differential_manchester pattern
tx.coding_gray pattern constellation=PAM4
tx.coding_linear pattern G
tx.coding_manchester pattern
tx.coding_mlt3 pattern
tx.mapping signal constellation full_scale=False levels=None pn_inv=False
tx.prbs_gen poly_coeff init_seed output_length
rx.ctle signal zeros poles dc_gain fs osr zi=None
rx.ddlms_grad input_vec output_vec levels ffe_tap_idx=[] dfe_tap_idx=[] reference_vec=None
rx.decoding_bipolar pattern error_detection=False
rx.decoding_conv_ml pattern G tb_len feedback=None use_feedback=None error_prob=False
rx.decoding_conv_viterbi pattern G tb_len feedback=None use_feedback=None error_prob=False
rx.decoding_differential pattern constellation=PAM4
rx.decoding_differential_manchester pattern
rx.decoding_gray pattern constellation=PAM4
rx.decoding_linear pattern G error_prob=False
rx.decoding_manchester pattern
rx.decoding_mlt3 pattern
rx.demapping signal constellation full_scale=False pn_inv=False
rx.ffe_dfe input_signal ffe_taps=[1] dfe_taps=None levels=None osr=1 phase=0 zi_ffe=None zi_dfe=None
rx.get_ctle_filter zeros poles dc_gain fs osr
rx.lock_pattern_to_signal pattern signal
rx.lock_pattern_to_signal_binary pattern signal
rx.mueller_muller_step signal_chunk reference_signal pre_weight=1 post_weight=1 tol=1e-3
rx.prbs_checker prbs_type data_in init_lock loss_th=100 prbs_seq=None
rx.prbs_checker_econ prbs_type data_in loss_th=100
rx.quantize signal total_bits frac_bits=0 fix_point_type='u'
rx.slicer slicer_in_mat levels=None
rx.soft_ddlms_grad input_vec output_vec levels sigma=1 ffe_tap_idx=[] dfe_tap_idx=[] reference_vec=None
rx.symbol2bin symbol_mat num_of_symbols bit_order_inv=False inv_msb=False inv_lsb=False pn_inv=False
channel.awgn signal snr
channel.awgn_channel signal b a snr=None zi=None
channel.pulse_shape signal osr=1 span=1 pulse='rect' beta=0.5 rj_sigma=0.0 zi=None
channel.rcos_pulse osr span beta t=None
channel.rect_pulse osr span t=None
channel.rrc_pulse osr span beta t=None
channel.sinc_pulse osr span t=None
misc.least_squares:least_squares a_mat b regularization='None' reg_lambda=0
psa:psa signal fs rbw=None mode='dB' obw=None r=50 osr=4 window='blackmanharris' overlap=0.75 fullscale=1 sb_mode='DSB' plot=False
example_simulation.simulation_parts.data_objects:PrbsData prbs_type chunk_size init_seed=None
example_simulation.simulation_parts.data_objects:CodingData bits_per_symbol constellation chunk_size bit_order_inv=False inv_msb=False inv_lsb=False pn_inv=False coding_gray=False coding_differential=False coding_bin_differential=False coding_manchester=False coding_bipolar=False coding_mlt3=False coding_diff_manchester=False coding_linear=False coding_conv=False G=None feedback=None use_feedback=None
example_simulation.simulation_parts.data_objects:MappingData constellation levels=None amp_pp_mv=2 rx_factor=1
example_simulation.simulation_parts.data_objects:ChannelData pulse pulse_span ch_type fir_coefs=None iir_coefs=None rolloff=0.35 osr=1 snr=22 pulse_rj_sigma=0 pulse_zi=None ch_zi=None
example_simulation.simulation_parts.data_objects:CtleData zeros poles dc_gain fs osr zi=None
example_simulation.simulation_parts.data_objects:AdcData total_bits frac_bits quant_type osr sample_rate phase=None
example_simulation.simulation_parts.data_objects:FfeDfeData ffe_precursors ffe_postcursors dfe_taps ffe_vec=None dfe_vec=None levels=None zi_ffe=None zi_dfe=None
example_simulation.simulation_parts.receiver:Receiver ctle_data adc_data ffe_dfe_data mapping_data coding_data lms_lr=2**(-10) digital_gain=1
'''

SIGS = {}
for _line in TABLE.strip().splitlines():
    _parts = _line.split(' ')
    _names, _defs = [], {}
    for _p in _parts[1:]:
        _n, _, _d = _p.partition('=')
        _names.append(_n)
        if _d:
            _defs[_n] = 'PAM4' if _d == 'PAM4' else eval(_d, {})
    SIGS[_parts[0]] = (_names, _defs)


def is_default(value, default):
    """Is the value the documented default?  (Never true for a value of another kind.)"""
    if default is None:
        return value is None
    if isinstance(default, bool):
        return isinstance(value, (bool, np.bool_)) and bool(value) == default
    if default == 'PAM4':
        return getattr(value, 'name', None) == 'PAM4'
    if isinstance(default, str):
        return isinstance(value, str) and value == default
    if isinstance(default, list):
        return isinstance(value, (list, np.ndarray)) and np.shape(value) == (len(default),) and list(value) == default
    return isinstance(value, (int, float, np.integer, np.floating)) and not isinstance(value, (bool, np.bool_)) and value == default


def restyle(name, args, kw, rng):
    """The same call in another documented style: (args, kw, names left to their defaults)."""
    if name not in SIGS:
        return args, kw, ()
    names, defs = SIGS[name]
    if len(args) > len(names) or any(k not in names for k in kw):
        return args, kw, ()
    vals = dict(zip(names, args))
    vals.update(kw)
    dropped = []
    for n in names:
        if n in vals and n in defs and is_default(vals[n], defs[n]) and rng.random() < 0.6:
            dropped.append(n)
            del vals[n]
    if rng.random() < 0.12:                     # spell some defaults out
        for n in names:
            if n in defs and n not in vals and n not in dropped and defs[n] != 'PAM4' and rng.random() < 0.5:
                vals[n] = np.array(defs[n]) if isinstance(defs[n], list) else defs[n]
    prefix = 0
    while prefix < len(names) and names[prefix] in vals:
        prefix += 1
    need = sum(1 for n in names if n not in defs)
    mode = rng.random()
    if mode < 0.35:
        npos = min(prefix, need)                # the usual style: required by position, options by name
    elif mode < 0.65:
        npos = prefix                           # as much as possible by position
    elif mode < 0.8:
        npos = 0                                # everything by name
    else:
        npos = int(rng.integers(0, prefix + 1))
    pos = [vals.pop(n) for n in names[:npos]]
    return tuple(pos), vals, tuple(dropped)
