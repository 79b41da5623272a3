"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "python/src/adctoolbox/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, note, observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech], observe_at=list(observe) or ["return values of the public functions"])), note))


I, CF, H, CP, FS = "inputs", "configurations", "histories", "crash_points", "fault_sequences"

# ---------------------------------------------------------------- fundamentals
prop("F01", "Folding a bin or frequency gives its true alias in the first Nyquist zone",
     "Folding any bin or frequency, positive or negative and any number of wraps away, returns the one value between zero and half the rate at which a sampled tone of that frequency appears, for even and odd transform lengths and for fractional bins. Arrays of frequencies fold element by element and keep their shape.",
     [I], "all bins on a quarter-bin grid over several wraps for every transform length up to the bound; all listed rates; scalar and array forms",
     "the tests fold a few hand-picked frequencies; odd lengths, fractional bins and many wraps are not reached",
     ["fundamentals/frequency.py"], [("alias folding", "fundamentals/frequency.py")], "folded value against exact rational arithmetic and against the DFT peak of a really sampled tone")
prop("F02", "Coherent frequency planning returns the nearest usable coherent tone",
     "For every rate, target and record length the planner returns a positive whole number of cycles in any Nyquist zone, coprime with the length and odd unless even ones are allowed, together with the frequency that is exactly cycles times rate over length, and no other usable cycle count within the search radius lies nearer to the target; when none exists it refuses.",
     [I, CF], "all record lengths up to the bound, all targets on a quarter-bin grid, all search radii and coprimality options; engineering rates",
     "the tests try a handful of rates and power-of-two lengths", ["fundamentals/frequency.py"], [("nearest coprime search", "fundamentals/frequency.py")],
     "plan against brute-force search over all cycle counts")
prop("F03", "Unit, SNR/NSD and figure-of-merit conversions follow their definitions",
     "Every conversion between decibels, magnitude, power, volts, LSBs, dBm, bins, ENOB, SNR, noise density and the figures of merit equals its defining formula, each pair of inverse conversions undoes the other, and scalars and arrays of any shape give the same numbers. Current and historical function names agree.",
     [I], "all values in the listed grids, in every accepted container form, for every conversion and pair of conversions",
     "the tests check single values per conversion; inverses, array forms and old names are mostly not crossed",
     ["fundamentals/units.py", "fundamentals/snr_nsd.py", "fundamentals/metrics.py", "utils/vpp_for_target_dbfs.py", "common.py"],
     [("unit conversions", "fundamentals/units.py"), ("noise density", "fundamentals/snr_nsd.py"), ("figures of merit", "fundamentals/metrics.py")], "formula reference in independent form, plus round trips")
prop("F04", "Sine fitting is the least-squares fit and recovers exact tones",
     "With a fixed frequency the fitted sine is the least-squares one; with frequency refinement an exact tone at least two cycles away from DC and Nyquist is recovered in frequency, amplitude, phase and offset. Residuals, error size, convergence status and iteration counts describe the returned fit, and each column of a matrix is fitted as if alone.",
     [I, CF], "all record lengths, tone positions (on and between bins), phases, amplitudes, offsets, iteration limits and tolerances in the grids",
     "the tests fit a few tones with loose tolerances", ["fundamentals/fit_sine_4param.py", "fundamentals/frequency.py", "common.py"],
     [("iterative least squares", "fundamentals/fit_sine_4param.py")], "normal equations and exact tones")
prop("F05", "Validation accepts exactly the documented records and bit matrices",
     "A record or bit matrix is accepted if and only if it is numeric, real, of the right number of dimensions, long enough, finite and (for records) not constant or (for bits) only zeros and ones; anything else is refused with an error, wherever in the data the bad value sits. Data that is unusual but legal draws a warning rather than an error, and validation never changes the data.",
     [I], "every record up to the length bound over a value alphabet including NaN, infinities, fractions and negatives; every position of one bad sample",
     "the tests place one bad value in one place", ["fundamentals/validate.py"], [("record checks", "fundamentals/validate.py")], "acceptance, warnings and errors against the stated rule")
# ---------------------------------------------------------------- models and generator
prop("M01", "The SAR model converts like an ideal successive-approximation converter",
     "For every weight list, input range and input, the noise-free conversion takes the binary-search decisions in order, so ideal arrays give the floor code with clipping at both ends, and the reconstructed value is the weighted sum of the bits. Noise enters only where and as large as configured and is reproducible from the given random generator; mismatch perturbs each weight as documented and invalid settings are refused.",
     [I, CF], "every input on a grid finer than one code, for all bit counts and a list of redundant weight sets, all noise answers from a small alphabet at each decision",
     "the tests convert ramps and sines for one or two resolutions", ["models/sar.py"], [("successive approximation loop", "models/sar.py")],
     "exact rational simulation; noise through a stub random generator")
prop("M02", "Capacitor arrays map to the bit weights charge conservation gives",
     "For every split capacitor array, with parasitics and bridge capacitors, the returned weights and total equal those obtained from charge conservation on the network, and mismatched array lengths are refused.",
     [I], "all arrays up to the stage bound over an alphabet of bit, parasitic and bridge capacitances, including directly connected sections",
     "the tests compare a few arrays with stored MATLAB results", ["fundamentals/convert_cap_to_weight.py"], [("stage-by-stage network reduction", "fundamentals/convert_cap_to_weight.py")],
     "nodal analysis in exact rational arithmetic")
prop("G01", "Deterministic signal impairments follow their formulas, alone and chained",
     "Each deterministic impairment of the signal generator (quantisation, nonlinearity, drift-free modulation, memory, tones, clipping and so on) applied to any record gives the documented waveform, and a chain of impairments equals applying them one after another. Unknown modes and noise-shaping orders outside one to five are refused.",
     [I, CF, H], "every impairment on several generators and record lengths, and every chain of two (thorough: three) impairments",
     "the tests check single impairments on one record", ["siggen/nonidealities.py"], [("impairment methods", "siggen/nonidealities.py")], "formula reference and chain composition")
prop("G02", "Random signal impairments have the requested strength and no other effect",
     "Every random impairment of the signal generator vanishes at zero strength, is reproducible under a fixed random state, and otherwise disturbs the clean tone with the requested statistics (normally distributed thermal noise, sampling jitter and amplitude noise) and nothing else.",
     [I, CF], "every random impairment over all listed strengths and seeds", "the tests look at one seed and a rough level",
     ["siggen/nonidealities.py"], [("random impairments", "siggen/nonidealities.py")], "moments of the difference to the clean tone with limits of at least five standard deviations")
# ---------------------------------------------------------------- spectrum
prop("S01", "Spectrum metrics equal their definitions under every analysis setting",
     "For every record, window, side-bin setting, harmonic count, noise method, oversampling ratio, scaling range, averaging mode and cutoff, the returned SNDR, SNR, SFDR, THD, ENOB, signal power, noise floor, noise density and spectrum arrays equal their definitions applied to the windowed transform of the record. Unknown noise methods, oversampling ratios that are not positive and malformed scaling ranges are refused.",
     [I, CF], "all combinations of the setting grids over an alphabet of records of even and odd length, on and off bin",
     "the tests fix the settings to a few combinations and check metrics with loose limits",
     ["spectrum/compute_spectrum.py", "spectrum/_harmonics.py", "spectrum/_estimate_noise_power.py", "spectrum/_locate_fundamental.py", "spectrum/_window.py", "spectrum/_side_bin_auto.py", "spectrum/_prepare_fft_input.py", "spectrum/_exclude_bins.py", "spectrum/_bin_ranges.py", "spectrum/_spectrum_averaging.py", "spectrum/_align_spectrum_phase.py"],
     [("metric computation", "spectrum/compute_spectrum.py"), ("harmonic search", "spectrum/_harmonics.py"), ("noise estimate", "spectrum/_estimate_noise_power.py")], "independent explicit-DFT reference of every metric")
prop("S02", "Known tones read back at their true levels at every bin and window",
     "A record made of tones of known size on exact bins yields the true signal power, harmonic distortion, spur level, SNDR, SNR and ENOB, wherever the fundamental sits and whichever window is used, as long as the tones are a main lobe apart.",
     [I, CF], "every fundamental bin of every record length in the bound, every subset of harmonics, spur and noise tone, every window", "the tests place one tone in one bin per window",
     ["spectrum/compute_spectrum.py", "spectrum/_window.py", "spectrum/_harmonics.py"], [("power correction per window", "spectrum/_window.py")], "levels used to build the record")
prop("S03", "Spectrum ratios ignore units, offset, rate label, run order and layout",
     "Multiplying a record by a gain, adding an offset, relabelling the sampling rate, reordering averaged runs, shifting a coherent record cyclically or passing the same numbers in another container changes only what those operations define (levels shift by the gain, frequencies scale with the rate), never the ratios.",
     [I, CF], "every listed transformation of every record in the alphabet, under every window and averaging mode", "the tests never compare two runs of one analysis",
     ["spectrum/compute_spectrum.py", "spectrum/_prepare_fft_input.py"], [("input preparation", "spectrum/_prepare_fft_input.py")], "metamorphic comparison of two real runs")
prop("S04", "Averaging several runs means what it says",
     "Power averaging of several runs yields the mean of their power spectra, copies of one run average to that run, and phase-aligned averaging of the same tone captured at different instants keeps the tone and its harmonics, with their phases relative to the tone, while reducing what is not repeated.",
     [I, CF], "all run counts in the bound, all start-time combinations, windows and tone positions", "the tests average random noise and look at one level",
     ["spectrum/_spectrum_averaging.py", "spectrum/_align_spectrum_phase.py", "spectrum/compute_spectrum.py"], [("power averaging", "spectrum/_spectrum_averaging.py"), ("phase alignment", "spectrum/_align_spectrum_phase.py")], "mean of explicit single-run spectra; analytic aligned sum")
prop("S05", "Oversampling judges exactly the in-band part of the record",
     "With any oversampling ratio the noise, spur and distortion figures count every bin up to the band edge and none beyond it: a disturbance just inside the edge counts fully, one just outside not at all.",
     [I, CF], "every disturbance bin, record length (even and odd) and oversampling ratio in the bound", "the tests use one ratio and a disturbance far from the edge",
     ["spectrum/compute_spectrum.py"], [("band limit", "spectrum/compute_spectrum.py")], "levels used to build the record, bin by bin")
prop("S06", "Harmonics are found where they alias, counted once, apart from the tone",
     "Every harmonic is looked for at the bin it aliases to, harmonics that alias onto the same place count once, and a harmonic that aliases onto DC or onto the fundamental is not counted as distortion.",
     [I], "every fundamental bin of every record length in the bound and every harmonic level", "the tests use tones whose harmonics neither alias nor collide",
     ["spectrum/_harmonics.py", "fundamentals/frequency.py"], [("harmonic bins", "spectrum/_harmonics.py")], "exact tones placed at exact alias bins")
prop("S07", "Every spectrum entry point reports the same figures",
     "The full, polar, compute-only, quick-SNDR and historical entry points return identical figures for the same record, settings and side bins, including the historical key names.",
     [I, CF], "the record alphabet crossed with the settings every entry point accepts", "each entry point is tested alone",
     ["spectrum/analyze_spectrum.py", "spectrum/analyze_spectrum_polar.py", "spectrum/quick_sndr.py", "spectrum/compute_spectrum.py", "spectrum/__init__.py"], [("entry points", "spectrum/__init__.py")], "cross comparison of real runs plus the S01 reference")
prop("S08", "The band filter keeps exactly the chosen bins, column by column",
     "Filtering a real record to a set of bands returns the projection on exactly the frequency bins those bands cover, for even and odd lengths; complementary bands add up to the record, filtering twice changes nothing, and each column is filtered as if alone. Malformed bands or data are refused.",
     [I, CF], "every band pair over a bin grid, every partition of the band and every single bin for all lengths in the bound", "the tests filter one record with one band",
     ["spectrum/extract_freq_components.py", "oversampling/ifilter.py"], [("bin mask", "spectrum/extract_freq_components.py")], "explicit DFT projection")
prop("S09", "The oversampling sweep judges each ratio by exactly its band",
     "Each point of the performance-versus-oversampling sweep equals the figure computed from exactly the bins inside that ratio's band, for default and chosen ratios, and smoothing and slope options do what they state.",
     [I, CF], "all default sweeps and all lists of ratios in the bound over the record alphabet", "the tests check the shape of one sweep",
     ["spectrum/sweep_performance_vs_osr.py", "oversampling/perfosr.py"], [("running band sums", "spectrum/sweep_performance_vs_osr.py")], "explicit DFT of the fit residual, band by band")
prop("S10", "In-band noise of a noise transfer function is its band integral",
     "For every noise transfer function and band, the reported in-band noise suppression equals the integral of the squared magnitude over the band, and adjacent bands add up.",
     [I, CF], "all zero/pole combinations in the alphabet and all bands on a grid", "the tests evaluate two modulators",
     ["oversampling/ntf_analyzer.py"], [("band integration", "oversampling/ntf_analyzer.py")], "closed-form/independent quadrature")
# ---------------------------------------------------------------- analog output
prop("A01", "Ramp INL/DNL equals the code-width definition for every histogram",
     "For every record of codes from a ramp, code widths, missing codes, DNL and INL equal their histogram definitions with the end codes excluded as documented and INL referenced to the documented line; unusable records are refused.",
     [I, CF], "all records/histograms up to the code and count bound, all clipping and range options", "the tests use one ideal and one noisy ramp",
     ["aout/compute_inl_from_ramp.py", "aout/analyze_inl_from_ramp.py"], [("code histogram", "aout/compute_inl_from_ramp.py")], "exact histogram arithmetic")
prop("A02", "Sine-histogram INL/DNL follows the cosine-corrected histogram",
     "For every sine record the DNL and INL equal the cosine-corrected code histogram with the documented clipping, ranges and scaling, for integer codes and for voltages.",
     [I, CF], "all code records in the alphabet, resolutions, clip fractions and input units", "the tests use one long record",
     ["aout/compute_inl_from_sine.py", "aout/analyze_inl_from_sine.py", "aout/_infer_signal_range.py"], [("cosine histogram", "aout/compute_inl_from_sine.py")], "independent histogram computation")
prop("A03", "Errors sorted by value or phase fall in the right bin",
     "Sorting the fit error by code value or by phase puts every sample in exactly the bin its value or phase selects, so bin counts, means and rms values and the amplitude/phase/base noise split equal their definitions; empty bins are marked and clipped ends are left out as requested.",
     [I, CF], "the record alphabet crossed with bin counts, clip fractions, value ranges, units and base-noise options", "the tests look at the shape of the result",
     ["aout/rearrange_error_by_value.py", "aout/rearrange_error_by_phase.py", "aout/analyze_error_by_value.py", "aout/analyze_error_by_phase.py", "aout/_fit_error_phase.py"], [("binning", "aout/rearrange_error_by_value.py"), ("noise split", "aout/rearrange_error_by_phase.py")], "per-sample binning reference and least squares")
prop("A04", "Harmonic decomposition splits the record without loss",
     "Fundamental, harmonics and remainder always add up to the (averaged) record, the remainder is orthogonal to every fitted harmonic, and synthetic harmonics are returned with their true size and their phase relative to the fundamental, in dB and linear form, through every entry point.",
     [I, CF], "the record alphabet crossed with harmonic orders, frequency options and layouts; every subset of harmonics at every coherent bin", "the tests decompose one or two tones",
     ["aout/decompose_harmonic_error.py", "aout/_fit_sine_harmonics.py", "aout/analyze_decomposition_time.py", "aout/analyze_decomposition_polar.py", "aout/__init__.py"], [("harmonic least squares", "aout/_fit_sine_harmonics.py")], "QR projection and synthetic harmonics")
prop("A05", "Error distribution, autocorrelation and spectra describe the fit error",
     "The error in LSBs, its mean, spread, density estimate and distance from normal, its autocorrelation at every lag, and the spectra of the error and of its envelope equal their definitions applied to the record minus its fitted sine.",
     [I, CF], "the record alphabet crossed with resolutions, full-scale and lag options, normalisation and fit options", "the tests check keys and rough values",
     ["aout/analyze_error_pdf.py", "aout/analyze_error_autocorr.py", "aout/analyze_error_spectrum.py", "aout/analyze_error_envelope_spectrum.py"], [("error statistics", "aout/analyze_error_pdf.py"), ("autocorrelation", "aout/analyze_error_autocorr.py"), ("envelope", "aout/analyze_error_envelope_spectrum.py")], "direct sums, explicit analytic signal, S01 reference")
prop("A06", "Static nonlinearity extraction recovers the polynomial of the curve",
     "For a sine passed through a known quadratic and cubic curve the extracted coefficients and transfer curve match the true ones (with the cubic gain absorbed by the sine fit), for any amplitude, offset, phase and order; for any record they are the least-squares polynomial of record against fitted sine. Orders below two, short and flat records are refused.",
     [I, CF], "all combinations of curve coefficients, amplitudes, offsets, phases, tones and orders in the grids", "the tests use one curve per case",
     ["aout/fit_static_nonlin.py"], [("polynomial fit", "aout/fit_static_nonlin.py")], "analytic curve and Chebyshev least squares")
prop("A07", "Phase-plane views choose a proper lag and flag exactly the outliers",
     "The automatic lag is the best-scoring quarter-period lag in its search range, exactly the samples beyond the robust threshold are flagged under their index, and the residual view's trend and rise/fall gap equal the least-squares fits over the documented samples. Lags beyond the record and unknown units are refused.",
     [I, CF], "every tone bin for the lag; every outlier position and size, lag and threshold; residual records over orders, units and options", "the tests check that plots appear",
     ["aout/analyze_phase_plane.py", "aout/analyze_error_phase_plane.py"], [("lag search", "aout/analyze_phase_plane.py"), ("trend fits", "aout/analyze_error_phase_plane.py")], "explicit score, robust statistics and least squares")
# ---------------------------------------------------------------- digital output
prop("D01", "Bit activity, overflow and stage residues are exact for every bit matrix",
     "For every bit matrix and weight list, the share of ones per bit, the residue range and the share of bottomed-out and saturated samples per bit, and the residue after any number of bits equal their exact arithmetic values. Mismatched lengths are refused.",
     [I], "every bit matrix up to the shape bound crossed with several weight lists, element types and all stage pairs", "the tests use a few random matrices with power-of-two weights",
     ["dout/analyze_bit_activity.py", "dout/analyze_overflow.py", "dout/plot_residual_scatter.py"], [("residue counting", "dout/analyze_overflow.py")], "exact rational arithmetic")
prop("D02", "Weight radix, scale and effective resolution follow the weight list",
     "For every list of weights, of any sign, order and scale, the radix is the ratio of neighbours, the effective resolution counts exactly the weights above the first gap of three or more, and the scale factor maps the weights closest to whole numbers among the candidates.",
     [I], "every weight list up to the length bound over an alphabet with zeros, repeats and negatives, at several scales", "the tests use three lists",
     ["dout/analyze_weight_radix.py"], [("significant-weight cut and scale search", "dout/analyze_weight_radix.py")], "exact rational arithmetic and exhaustive candidate search")
prop("D03", "The resolution-versus-bits sweep measures each partial word",
     "Each point of the sweep equals the effective number of bits of the record rebuilt from exactly that many leading bits with the calibrated weights, for every window, oversampling ratio and frequency option.",
     [I, CF], "all combinations of weight lists, tones, windows, ratios and calibration options in the grids", "the tests check that the curve rises",
     ["dout/analyze_enob_sweep.py"], [("partial sums", "dout/analyze_enob_sweep.py")], "S01 reference on the partial sums")
# ---------------------------------------------------------------- calibration
prop("C01", "Weight calibration at a known frequency recovers the true weights",
     "When the weighted bits make up a sine exactly, calibration returns the true weights (unit sine amplitude, positive sum) at any phase, order and excluded harmonics; on any bits the result is the least-squares one and its waveforms, offset, ratio and bits agree with each other. Reordering, inverting, rescaling, duplicating or freezing bits changes the weights only accordingly, and malformed requests are refused.",
     [I, CF], "all weight lists, tones, phases (including exact quadratures), harmonic orders and bit rearrangements in the grids", "the tests calibrate a few weight sets with loose limits",
     ["calibration/calibrate_weight_sine.py", "calibration/_lstsq_solver.py", "calibration/_patch_rank_deficiency.py", "calibration/_scale_columns_for_conditioning.py", "calibration/_post_process.py", "calibration/_prepare_input.py", "dout/__init__.py"],
     [("dual-basis least squares", "calibration/_lstsq_solver.py"), ("rank repair", "calibration/_patch_rank_deficiency.py"), ("result assembly", "calibration/_post_process.py")], "exact synthetic records and orthogonality of the error")
prop("C02", "Calibration finds the frequency and combines several records",
     "Started within a quarter of a bin, the frequency search converges to the tone and the true weights; without a start it finds the tone of an ordinary record. Several records with different tones, levels, lengths and offsets yield one shared set of true weights and for each record its own frequency, ideal waveform and error, while given frequencies are kept unless a search is asked for.",
     [I, CF], "all record combinations and orders, start errors, phases, harmonic orders and frequency options in the grids", "the tests search from one start on one record",
     ["calibration/calibrate_weight_sine.py", "calibration/_lstsq_solver.py", "calibration/_estimate_frequencies.py", "calibration/_post_process.py"], [("frequency search", "calibration/_lstsq_solver.py"), ("coarse estimate", "calibration/_estimate_frequencies.py")], "exact synthetic records")
prop("C03", "The minimal calibration agrees with the full one at every phase",
     "At any input phase the minimal calibration returns normalised weights with positive sum that are the true ones for exact records and agree with the full calibration for ordinary bits; frequencies above one half are refused.",
     [I, CF], "all weight lists, tones, phases and element types in the grids", "the tests use one phase",
     ["calibration/calibrate_weight_sine_lite.py"], [("least squares", "calibration/calibrate_weight_sine_lite.py")], "exact synthetic records and the full calibration")
# ---------------------------------------------------------------- time interleaving
prop("T01", "Splitting into channels and stitching back are exact inverses",
     "Sample n of a record is sample n divided by M of channel n modulo M, for every channel count, length and number type; stitching undoes splitting and the reverse, and lengths that do not divide or wrong shapes are refused.",
     [I], "every channel count and length in the bound, all number types and memory layouts", "the tests use one size",
     ["timeinterleave/deinterleave.py"], [("reshape", "timeinterleave/deinterleave.py")], "index arithmetic")
prop("T02", "Channel offset, gain and skew are measured exactly from a coherent sine",
     "For every coherent sine capture the measured per-channel offset, relative gain (mean one), timing skew (mean zero), amplitude and phase equal those the capture was made with, in any Nyquist zone of the channels, at any start phase, unit and sampling rate.",
     [I, CF], "every tone bin, channel count, mismatch combination, phase and rate in the bound", "the tests use four channels and one low tone",
     ["timeinterleave/extract_mismatch_sine.py"], [("per-channel phasor", "timeinterleave/extract_mismatch_sine.py")], "values used to build the capture")
prop("T03", "Foreground correction removes exactly the mismatch it is given",
     "Correcting a capture with its true or measured mismatch yields the ideal tone (timing included for tones below half the channel rate), leaves nothing for a second measurement, and treats each channel of any record alone: subtract offset, divide by gain, delay by skew. Wrong parameter counts and unknown methods are refused.",
     [I, CF], "every tone bin, channel count and mismatch combination; arbitrary records with both delay methods and filter lengths", "the tests correct one capture and check a level",
     ["timeinterleave/calibrate_foreground.py", "timeinterleave/fractional_delay.py"], [("per-channel correction", "timeinterleave/calibrate_foreground.py")], "ideal tone and explicit per-channel delay")
prop("T04", "Predicted interleaving spurs match the spectrum of the interleaved record",
     "For every mismatch, tone and channel count each predicted spur has the frequency and amplitude found by transforming the interleaved record itself (entries on one frequency add up), with consistent dBFS and dBc levels, sorted by frequency; matched channels predict silence and missing or inconsistent parameters are refused.",
     [I, CF], "every tone bin, channel count and mismatch combination in the bound", "the tests compare one capture within a few dB",
     ["timeinterleave/predict_spurs.py"], [("mismatch DFT", "timeinterleave/predict_spurs.py")], "explicit DFT of the built record")
prop("T05", "Fractional delays shift by exactly the requested time",
     "The transform-based delay is exact periodic interpolation (whole samples rotate, tones move by exactly the delay, advance undoes delay) and the filter-based delay is whole-sample shift plus Lagrange interpolation that is exact for polynomials of its order; both keep the record length and leave the input alone, for any length, delay, rate and tap count, and even or non-positive tap counts are refused.",
     [I, CF], "every record length in the bound with a grid of positive, negative, whole and very long delays and all tap counts", "the tests delay one tone by a few delays",
     ["timeinterleave/fractional_delay.py"], [("phase rotation", "timeinterleave/fractional_delay.py"), ("Lagrange filter", "timeinterleave/fractional_delay.py")], "explicit interpolation sums")

# ---------------------------------------------------------------- whole package
prop("P01", "Analyses keep no memory and leave everything around them alone",
     "Any public analysis gives the same result whatever was called before it, even after the caller overwrote earlier results, and never changes its arguments. It also leaves random-number state, floating-point and print settings, warning filters, plot settings, open figures, working directory and environment as they were.",
     [H, CF], "all ordered pairs of the listed calls with three inputs each, every call followed by the same call with one argument or parameter changed; all triples in the thorough tier", "the tests call each function on its own in a fresh state",
     ["spectrum/compute_spectrum.py", "aout/__init__.py", "dout/__init__.py", "calibration/calibrate_weight_sine.py", "timeinterleave/calibrate_foreground.py", "fundamentals/fit_sine_4param.py", "siggen/nonidealities.py", "models/sar.py"],
     [("pure analysis functions", "spectrum/compute_spectrum.py"), ("working copies of inputs", "spectrum/_prepare_fft_input.py")], "the same call in a fresh process", ["return values, arguments and process-wide settings"])
prop("P02", "Drawing is optional, changes no number and touches only the axes given",
     "With drawing off no figure is opened, closed or changed; with drawing on the returned numbers are the same as with it off. When axes are handed over, only they (or panels put in their place) are drawn into: the user's other figures, other axes and plot settings stay as they are and no figure is opened or closed. Progress reports appear only when asked for and change no number either.",
     [I, CF], "every drawing analysis with three inputs in every combination of drawing off or on, axes given or not, one or two panels, and which of the user's figures is current", "the tests draw with no other figure open",
     ["spectrum/plot_spectrum.py", "spectrum/plot_spectrum_polar.py", "spectrum/plot_spectrum_virtuoso.py", "spectrum/sweep_performance_vs_osr.py", "aout/plot_dnl_inl.py", "aout/plot_rearranged_error_by_value.py", "aout/plot_rearranged_error_by_phase.py", "aout/plot_decomposition_time.py", "aout/plot_decomposition_polar.py", "aout/analyze_error_spectrum.py", "aout/analyze_error_envelope_spectrum.py", "aout/analyze_phase_plane.py", "dout/analyze_overflow.py"],
     [("axes selection", "spectrum/plot_spectrum.py"), ("panel splitting", "aout/plot_dnl_inl.py")], "snapshot of all figures before and after", ["figures, axes and their artists"])
prop("P03", "Dashboards show exactly the stand-alone analyses and save where asked",
     "Each numbered panel of a dashboard shows the same curves, bars, points and texts as its analysis drawn alone with the sampling rate, frequency, resolution or weights given. With an output path exactly that file is written (missing directories created, an existing file replaced) and the figure closed, without one the figure stays open; the user's figures are never touched.",
     [I, CF], "all three dashboards with every listed input, parameter combination, output path state and figure environment", "the tests only check that a file appears",
     ["toolset/generate_aout_dashboard.py", "toolset/generate_aout_dashboard_3x4.py", "toolset/generate_dout_dashboard.py"], [("panel assembly", "toolset/generate_aout_dashboard.py"), ("digital panels", "toolset/generate_dout_dashboard.py")], "the stand-alone analysis drawn into its own axes", ["artists of every panel, files written"])
prop("P04", "Figures show the numbers that are returned",
     "Every drawn curve, bar, point cloud and marker has the coordinates of the returned results, and every number printed in a figure (metrics, frequencies with their unit, percentages, ratios, limits) agrees with the returned number to the digits printed. Fundamental, harmonics and largest spur are marked at their true place on the spectrum.",
     [I, CF], "every drawing analysis with three inputs; spectrum figures over all listed sampling rates from 1 Hz to 7 GHz, tones, oversampling ratios and windows", "the tests check that something is drawn",
     ["spectrum/plot_spectrum.py", "spectrum/plot_spectrum_polar.py", "spectrum/plot_spectrum_virtuoso.py", "spectrum/sweep_performance_vs_osr.py", "aout/plot_dnl_inl.py", "aout/plot_rearranged_error_by_value.py", "aout/plot_rearranged_error_by_phase.py", "aout/plot_decomposition_time.py", "aout/plot_decomposition_polar.py", "aout/analyze_error_pdf.py", "aout/analyze_error_autocorr.py", "aout/analyze_error_phase_plane.py", "dout/analyze_bit_activity.py", "dout/analyze_overflow.py", "dout/analyze_weight_radix.py", "dout/analyze_enob_sweep.py", "dout/plot_residual_scatter.py"],
     [("metric texts and markers", "spectrum/plot_spectrum.py"), ("error panels", "aout/plot_rearranged_error_by_phase.py")], "returned results against the artists in the figure", ["lines, bars, points and texts of the figure"])
prop("P05", "Analyses running at the same time do not disturb each other",
     "When one analysis is stopped at any point, another one (the same or a different function) runs to its end in another thread and the first goes on, both return exactly what they return when run alone.",
     ["schedules", I], "every package line the first analysis executes (first and last visit, in the thorough tier all visits up to a limit) as the point of preemption, for every public analysis with itself and with others", "the tests run in one thread",
     ["spectrum/compute_spectrum.py", "fundamentals/fit_sine_4param.py", "calibration/calibrate_weight_sine.py", "aout/rearrange_error_by_phase.py", "aout/compute_inl_from_sine.py"],
     [("no shared working state", "spectrum/compute_spectrum.py")], "the same calls run alone", ["return values"])
prop("P06", "Old and MATLAB-style names give what the current functions give",
     "Every compatibility function returns the documented pieces of the current function's result in the documented order, with old parameter names and drawing switches taken over and explicit new ones taking precedence; spectrum results carry old and new metric names with equal values. Every announced name can be used.",
     [I, CF], "every compatibility function with every listed parameter combination and three inputs", "the tests call a few of them once",
     ["aout/__init__.py", "dout/__init__.py", "common.py", "oversampling/ifilter.py", "oversampling/perfosr.py", "oversampling/ntfperf.py", "spectrum/analyze_spectrum.py", "__init__.py"],
     [("tuple wrappers", "aout/__init__.py"), ("digital wrappers", "dout/__init__.py"), ("old metric names", "spectrum/analyze_spectrum.py")], "the current function called with the translated parameters")
prop("P07", "Only the values of the data count, not how they are stored",
     "An analysis gives the same results for the same values stored read-only, strided, reversed, in column order, transposed, unaligned or byte-swapped, as any integer type or in double precision, as booleans where bits are accepted, or as a plain list where lists are accepted; single precision gives the same results to its precision.",
     [I], "every public analysis with three inputs, every array argument, every storage form that can hold the values", "the tests pass fresh contiguous float arrays",
     ["spectrum/_prepare_fft_input.py", "calibration/_prepare_input.py", "fundamentals/validate.py", "aout/__init__.py", "dout/__init__.py", "timeinterleave/deinterleave.py"],
     [("input preparation", "spectrum/_prepare_fft_input.py")], "the contiguous double-precision or integer array")
prop("P08", "A setting left out means its documented default",
     "Leaving out any one optional setting, or all of them, gives exactly the result, printed text and figure that giving the documented default gives; an analysis that draws by default draws when nothing is said.",
     [I, CF], "every public analysis, generator effect, conversion, plot and dashboard, every optional setting alone and all together, several inputs", "the tests fix a few settings and never compare them with being left out",
     ["spectrum/analyze_spectrum.py", "spectrum/compute_spectrum.py", "spectrum/analyze_spectrum_polar.py", "spectrum/quick_sndr.py", "spectrum/sweep_performance_vs_osr.py", "siggen/nonidealities.py", "aout/__init__.py", "dout/__init__.py",
      "aout/analyze_error_by_value.py", "aout/analyze_error_by_phase.py", "aout/analyze_error_pdf.py", "aout/analyze_error_autocorr.py", "aout/analyze_phase_plane.py", "aout/analyze_inl_from_sine.py", "aout/analyze_inl_from_ramp.py",
      "dout/analyze_enob_sweep.py", "calibration/calibrate_weight_sine.py", "fundamentals/fit_sine_4param.py", "fundamentals/snr_nsd.py", "fundamentals/units.py", "models/sar.py", "timeinterleave/calibrate_foreground.py", "oversampling/perfosr.py", "toolset/generate_aout_dashboard.py", "toolset/generate_dout_dashboard.py"],
     [("defaults of the settings", "spectrum/analyze_spectrum.py")], "the same call with the documented defaults given")
prop("P09", "Changing the unit of samples or time changes results only as units do",
     "Multiplying the samples by a gain, adding a constant to them, or expressing rate and times in another unit moves every result of every analysis only the way its unit says: levels follow gain and constant, sizes follow the gain, frequencies the rate, times its inverse, densities its logarithm, and ratios, decibels, counts, bin numbers and sample numbers not at all.",
     [I, CF], "every public analysis of sampled waveforms, several records and settings each, every gain, constant and rate of the grid", "the tests use one amplitude, one offset and one rate per analysis",
     ["aout/__init__.py", "spectrum/compute_spectrum.py", "spectrum/sweep_performance_vs_osr.py", "aout/analyze_phase_plane.py", "aout/analyze_error_phase_plane.py", "aout/rearrange_error_by_phase.py", "aout/rearrange_error_by_value.py", "aout/decompose_harmonic_error.py", "aout/analyze_error_pdf.py", "aout/analyze_error_autocorr.py",
      "fundamentals/fit_sine_4param.py", "timeinterleave/extract_mismatch_sine.py", "timeinterleave/fractional_delay.py", "timeinterleave/predict_spurs.py"],
     [("normalisation", "spectrum/_prepare_fft_input.py")], "the same analysis of the unscaled record")
# ---------------------------------------------------------------- command-line tools
prop("K01", "Copying the examples never overwrites and copies everything",
     "The example copier either places a complete, byte-identical copy of all examples in the requested place (the default folder when none is given) or leaves an existing destination exactly as it was and says so; it never touches anything else, and a failing file operation is never reported as success.",
     [I, CF, FS], "every destination kind, spelling and command line listed, and a failure injected at every file-system step", "the tests copy once into an empty directory",
     ["cli.py"], [("tree copy", "cli.py")], "model of the directory tree", ["file tree, exit status, output"])
prop("K02", "The skill installer does exactly what the command line asks",
     "From every state of the destination, each command line (selection, alias, destination, force, status) leads to the state the rules define: asked-for skills become exact copies, existing different ones are refused without force and nothing is changed, others are untouched, and status tells synced exactly when a copy is identical. Unknown names are refused and bundled sources are never altered.",
     [I, H, CF], "all destination states of every skill, all command lines, all sequences up to the depth bound", "the tests install into an empty directory and once over a copy",
     ["skill_cli.py", "cli.py"], [("install and status", "skill_cli.py")], "state-machine model of the destination", ["file tree, exit status, output"])
prop("K03", "An interrupted or failing skill install damages nothing and can be repeated",
     "Whichever file-system step of an install fails or is the last before the process dies, nothing outside the destination folders of the asked-for skills and none of the bundled sources is changed, at most one skill is left unfinished, no unfinished skill is called synced, success is only reported for complete copies, and repeating the command with force completes it.",
     [CP, FS, H], "every file-system change of every listed install as the failing, torn or last step, then a second interruption during the repair", "the tests never fail a file operation",
     ["skill_cli.py"], [("replace and copy", "skill_cli.py")], "fault injection at every audited file-system call plus the directory model", ["file tree, exit status, output"])
prop("K04", "Every bundled example runs from a fresh copy and keeps to its output folder",
     "Each example program, started in its own folder or elsewhere, for the first time or again, ends without error, writes only into the output folder beside it, leaves what was there before as it was, and every file it announces exists and is complete.",
     [I, CF, H], "every bundled example from every listed starting place and state of its output folder", "the tests do not run the examples",
     ["cli.py", "toolset/generate_aout_dashboard.py", "toolset/generate_dout_dashboard.py", "__init__.py", "siggen/nonidealities.py", "spectrum/analyze_spectrum.py"], [("example programs", "examples")], "the file tree before and after", ["file tree, exit status, output"])

exec(open(os.path.join(ROOT, "tools", "props_extra.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_extra.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")

man = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "Checks import the code under test from /repo/python/src at run time; nothing is prebuilt. No hooks are needed: every property is observed through the public API.",
}
for p, note in P:
    pid = p["id"]
    man["checks"].append({
        "property": pid, "quick_cmd": f"bash /verif/run.sh {pid} quick", "thorough_cmd": f"bash /verif/run.sh {pid} thorough",
        "evidence_file": f"/verif/evidence/{pid}.json",
        "technique": "bounded exhaustive exploration of the real code; oracle: " + note,
        "level": "model_checking",
        "level_note": "every behaviour inside the stated bounds is executed on the real code and compared with an independent reference model",
    })
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
