"""Documented default of every setting of the public functions, by the names used in the registry of calls."""
NAN = float("nan")
SPEC = dict(fs=1.0, osr=1, max_scale_range=None, win_type="hann", side_bin=None, max_harmonic=5, nf_method=0, assumed_sig_pwr_dbfs=NAN, coherent_averaging=False,
            create_plot=True, show_title=True, show_label=True, plot_harmonics_up_to=3, ax=None)
FIT = dict(max_iterations=1, tolerance=1e-9)
PLOT = dict(create_plot=True, ax=None, title=None)

DEFAULTS = {
    "analyze_spectrum": SPEC, "analyze_spectrum runs": SPEC, "analyze_spectrum_virtuoso": {**SPEC, "win_type": "rectangular"},
    "analyze_spectrum_polar": dict(max_code=None, harmonic=5, osr=1, cutoff_freq=0, fs=1.0, win_type="boxcar", create_plot=True, ax=None, fixed_radial_range=None),
    "compute_spectrum": dict(fs=1.0, max_scale_range=None, win_type="hann", side_bin=None, osr=1, max_harmonic=5, nf_method=0, assumed_sig_pwr_dbfs=None,
                             coherent_averaging=False, cutoff_freq=0, verbose=0),
    "quick_sndr": dict(fs=1.0, win_type="hann", side_bin=None, max_scale_range=None),
    "sweep_performance_vs_osr": dict(osr=None, harmonic=5, create_plot=True, ax=None, logscale=True, smooth=None),
    "analyze_error_by_value": dict(norm_freq=None, n_bins=100, clip_percent=0.01, value_range=None, axes=None, return_fit=False, **FIT, **PLOT),
    "analyze_error_by_phase": dict(norm_freq=None, n_bins=100, include_base_noise=True, axes=None, return_fit=False, **FIT, **PLOT),
    "rearrange_error_by_value": dict(norm_freq=None, n_bins=100, clip_percent=0.01, value_range=None, return_fit=False, **FIT),
    "rearrange_error_by_phase": dict(norm_freq=None, n_bins=100, include_base_noise=True, return_fit=False, **FIT),
    "analyze_error_pdf": dict(resolution=12, full_scale=None, frequency=None, return_fit=False, **FIT, **PLOT),
    "analyze_error_autocorr": dict(frequency=None, max_lag=50, normalize=True, return_fit=False, **FIT, **PLOT),
    "analyze_error_spectrum": dict(fs=1, frequency=None, return_fit=False, **FIT, **PLOT),
    "analyze_error_envelope_spectrum": dict(fs=1, frequency=None, return_fit=False, **FIT, **PLOT),
    "analyze_phase_plane": dict(lag="auto", fs=1.0, detect_outliers=True, threshold=4.0, **PLOT),
    "analyze_error_phase_plane": dict(fs=1.0, fit_polynomial_order=3, detect_hysteresis=True, unit_mode="auto", **PLOT),
    "analyze_decomposition_time": dict(harmonic=5, n_cycles=5.0, frequency=None, **FIT, **PLOT),
    "analyze_decomposition_polar": dict(harmonic=5, frequency=None, **FIT, **PLOT),
    "decompose_harmonic_error": dict(n_harmonics=5, frequency=None, **FIT),
    "analyze_inl_from_sine": dict(full_scale=None, clip_percent=0.01, create_plot=True, show_title=True, col_title=None, ax=None),
    "compute_inl_from_sine": dict(full_scale=None, clip_percent=0.01),
    "analyze_inl_from_ramp": dict(num_bits=None, code_min=0, code_max=None, input_type="codes", endpoint="endpoints", exclude_endpoints=True, create_plot=True,
                                  show_title=True, col_title=None, axes=None, ax=None),
    "compute_inl_from_ramp": dict(num_bits=None, code_min=0, code_max=None, endpoint="endpoints", exclude_endpoints=True),
    "decompose_harmonics": dict(freq=None, harmonic=5, disp=1), "old error by code": dict(bins=100, freq=None, disp=1), "old error by phase": dict(bins=100, freq=None, disp=1),
    "old spectrum": dict(n_thd=None),
    "analyze_bit_activity": PLOT, "analyze_overflow": dict(ofb=None, **PLOT), "analyze_weight_radix": PLOT,
    "analyze_enob_sweep": dict(freq=None, harmonic_order=1, osr=1, win_type="hamming", verbose=False, **PLOT),
    "plot_residual_scatter": dict(weights=None, pairs=None, alpha="auto", create_plot=True),
    "calibrate_weight_sine": dict(freq=None, force_search=None, nominal_weights=None, harmonic_order=1, learning_rate=0.5, reltol=1e-12, max_iter=100, verbose=0),
    "calibrate several": dict(freq=None, force_search=None, nominal_weights=None, harmonic_order=1, learning_rate=0.5, reltol=1e-12, max_iter=100, verbose=0),
    "fit_sine_4param": dict(frequency_estimate=None, verbose=0, **FIT), "fit_sine columns": dict(frequency_estimate=None, verbose=0, **FIT),
    "estimate_frequency": dict(frequency_estimate=None, fs=1.0), "find_coherent_frequency": dict(force_odd=True, search_radius=200),
    "amplitudes_to_snr": dict(osr=1, return_power=False),
    "sar_convert": dict(quant_range=(0.0, 1.0), sampling_noise_rms=0.0, comparator_noise_rms=0.0, rng=None), "sar_reconstruct": dict(quant_range=(0.0, 1.0)),
    "extract_mismatch_sine": dict(fin=None), "calibrate_foreground": dict(skew_method="fft", n_taps=7), "predict_spurs": dict(fin=None, full_scale=1.0),
    "fractional_delay_farrow": dict(n_taps=7), "ntf_analyzer": dict(is_plot=None),
    "perfosr": dict(disp=None, osr=None, logscale=True, harmonic=5, smooth=None, ax=None),
}

METHODS = {       # signal generator: method -> defaults
    "apply_am_noise": dict(strength=0.01), "apply_am_tone": dict(am_tone_freq=5e5, am_tone_depth=0.05), "apply_clipping": dict(percentile_clip=1.0),
    "apply_drift": dict(drift_scale=5e-5), "apply_glitch": dict(glitch_prob=0.00015, glitch_amplitude=0.1),
    "apply_incomplete_sampling": dict(T_track=None, tau_nom=4e-11, coeff_k=0.15), "apply_jitter": dict(jitter_rms=2e-12), "apply_memory_effect": dict(memory_strength=0.009),
    "apply_noise_shaping": dict(n_bits=10, quant_range=(0.0, 1.0), order=1, ntf=None), "apply_quantization_noise": dict(n_bits=10, quant_range=(0.0, 1.0)),
    "apply_ra_gain_error": dict(relative_gain=0.99, msb_bits=4, lsb_bits=12, mode="coarse_path"),
    "apply_ra_gain_error_dynamic": dict(relative_gain=1, coeff_3=0.15, msb_bits=4, lsb_bits=12, mode="coarse_path"),
    "apply_reference_error": dict(settling_tau=2.0, droop_strength=0.01), "apply_static_nonlinearity": dict(k2=0, k3=0, k4=0, k5=0),
    "apply_static_nonlinearity_hd": dict(hd2_dB=None, hd3_dB=None, hd4_dB=None, hd5_dB=None), "apply_thermal_noise": dict(noise_rms=5e-5),
}
