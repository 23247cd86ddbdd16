F = "qetpy/core/_fitting.py"
U = "qetpy/utils/_utils.py"
S = "qetpy/sim/_sim.py"
N = "qetpy/core/_noise.py"
CUTF = "qetpy/cut/_cut.py"
IVF = "qetpy/core/_iv.py"
IBF = "qetpy/core/_ibis.py"
NS = "qetpy/core/_of_nsmb.py"
DB = "qetpy/core/didv/_base_didv.py"
DD = "qetpy/core/didv/_didv.py"
DP = "qetpy/core/didv/_didv_priors.py"
BFS = "explicit-state breadth-first search over the real object + exhaustive replay of operation sequences"
ENUM = "bounded exhaustive enumeration of configurations/inputs on the real code against a reference model"

PROPS = [
 dict(id="C01", title="Delay search returns the true optimum over exactly the allowed delays",
  statement="For every optimum-filter fit with a free time shift (class methods with delay, with baseline, with pile-up, and the function forms), the reported delay is a bin allowed by the window length, window centre, window side and pulse-direction options as documented, and no other allowed bin has a smaller chi-square. The reported amplitude and chi-square are those of that bin; if no delay is allowed the class fits report amplitude 0, time 0 and the chi-square without that pulse. Options outside their documented range raise ValueError.",
  over=["inputs", "configurations"], quant="all trace lengths, signals, PSDs, couplings, window lengths, centres, sides and pulse directions",
  why="The tests assert a dozen hand-picked window settings on one 32500-bin trace; odd lengths, edge windows, clipped windows, direction masks combined with windows are never enumerated.",
  files=[F], mech=[("window/mask arithmetic and argmin", F + ":_argmin_chi2"), ("direction mask", F + ":_get_pulse_direction_constraint_mask"), ("roll of delay axis", F + ":ofamp_withdelay, ofamp_baseline, ofamp_pileup_iterative, ofamp_pileup_stationary, ofamp, ofamp_pileup")],
  technique=ENUM, note="Every option tuple within the bounds is executed on the real filters and judged against a brute-force residual scan over the documented allowed set; lengths above the bound are not covered."),
 dict(id="C02", title="Optimum-filter amplitudes, chi2 and resolutions are exact least squares",
  statement="Amplitude and chi-square of the no-delay (at any window centre), with-delay and baseline fits equal the weighted least-squares estimate and the directly summed residual chi-square for the given signal, template and two-sided PSD, for AC and DC coupling and for integral normalisation; the no-pulse and low-frequency chi-square equal the directly summed residuals for any amplitude, time (also sub-bin) and cut-off. Energy and time resolutions follow from the same weights. Function and class forms agree, and fitting several traces at once gives the per-trace results.",
  over=["inputs", "configurations"], quant="all signals, templates, PSDs, sample rates, even and odd lengths, couplings, normalisations and batch sizes",
  why="Tests compare one simulated trace with stored numbers; no test relates the outputs to the residuals, uses odd lengths, DC coupling, integral normalisation or batches.",
  files=[F], mech=[("filter, norm and chi2 algebra", F + ":OptimumFilter, ofamp, chi2lowfreq, chi2_nopulse")],
  technique=ENUM, note="All signals over a small integer alphabet up to length 5/6 and generic signals up to length 9/17, with every query; reference is a direct DFT sum."),
 dict(id="C03", title="Pile-up fits are exact for every position of the first pulse",
  statement="For any amplitude and time of the first pulse - positive or negative, on or between bins - the iterative pile-up fit reports the best second pulse and a chi-square equal to the residual of the two-pulse model; the stationary fit reports the joint least-squares amplitudes (their sum, when both pulses coincide) with the chi-square of that fit. The function forms give the same answers as the class forms and return a given first pulse unchanged.",
  over=["inputs", "configurations"], quant="all first-pulse times and amplitudes, signals, sample rates, couplings",
  why="Tests use one first-pulse time; bin rounding depends on the time value and sample rate, so it needs enumeration of every bin.",
  files=[F], mech=[("time to bin conversion and two-pulse algebra", F + ":ofamp_pileup_iterative, ofamp_pileup_stationary, ofamp_pileup")],
  technique=ENUM, note="Every whole and quarter bin in [-n,n] for several sample rates; two defects found this way were repaired."),
 dict(id="C04", title="Sub-bin interpolation refines the grid optimum and never leaves it",
  statement="With interpolation requested, a fit whose best allowed delay is a local minimum of the (periodic) chi-square reports the vertex of the parabola through that delay and its two neighbours as time and chi-square, and the amplitude parabola evaluated there - for the first and the last bin alike. If the best allowed delay is not a local minimum the grid values are reported; the interpolated time is never more than half a bin from an allowed best delay nor its chi-square larger than the grid one.",
  over=["inputs", "configurations"], quant="all pulse positions including the trace edges, windows, directions, couplings, for all three interpolating fits",
  why="Tests interpolate one mid-trace pulse; the edge bins and constrained windows (where the vertex is elsewhere) are never reached.",
  files=[F], mech=[("precomputed parabola", F + ":OptimumFilter._interpolate_parabola, _interpolate_of")],
  technique=ENUM, note="Pulses at every bin with all window options; reference parabola from brute-force chi2."),
 dict(id="C05", title="Optimum-filter answers never depend on the history of calls",
  statement="Whatever fits, queries and signal updates were made before on a filter object, every call answers exactly as on a filter freshly built with the current signal, the same template, PSD, sample rate and options. Updating the signal discards everything derived from the old one, later changes to the caller's arrays have no effect, and two filters never influence each other.",
  over=["histories"], quant="all sequences of method calls and signal updates, on one and on two live filters",
  why="Tests run one fixed sequence; cached filtered signals, chi-squares, times and frequencies can go stale only under particular orders.",
  files=[F], mech=[("lazily filled caches and their reset", F + ":OptimumFilter.__init__, update_signal, _check_freqs")],
  technique=BFS, note="Search reaches the fixpoint of the object state space over a 19-operation alphabet, so histories of any length over it are covered; plus all sequences to length 3/4 on fresh objects and all two-object interleavings."),
 dict(id="C06", title="Non-linear pulse and muon-tail fits: models, statistics, recovery, history",
  statement="Frequency- and time-domain model functions for one to four poles and the muon tail are the documented functional forms with the pulse height meaning documented for the scaled amplitude, for any order of rise and fall times and any onset bin. A fit of a noiseless pulse recovers its parameters from a reasonable explicit guess and, for one and two poles, from the default guess; the reported chi-square, covariance and errors are those of the returned parameters with the given error scale. Fits on one object are independent of earlier fits on it, and a guess of the wrong length raises ValueError.",
  over=["inputs", "histories", "configurations"], quant="all parameter values, onsets, pole counts, guesses, error scales and sequences of fits",
  why="Tests store the output of four fits of one pulse; model sign/shift errors, statistics and repeated use are not asserted.",
  files=[F], mech=[("model functions", F + ":OFnonlin.*pole*, MuonTailFit.muontailfcn"), ("fit state set by each call", F + ":fit_falltimes, fitmuontail")],
  technique=ENUM + "; all fit sequences on one object", note="Model grid exhaustive over a small alphabet; recovery and statistics recomputed by an independent model; scipy's minimiser is trusted."),
 dict(id="C07", title="nSmB fits are the (constrained) least-squares optimum over the search window",
  statement="For every signal, set of background templates, PSD and search window of delays, of_nsmb reports the delay of the window (wrapped into the trace) at which the joint weighted least-squares fit of the signal template and all backgrounds has the smallest chi-square, with the amplitudes, chi-square, low-frequency chi-square and time-domain residual of that fit. With polarity constraints of_nsmb_con and of_mb report the minimum over the allowed signs, never violate a constraint and are never worse than any allowed subset of templates; parabolic interpolation applies only around local minima. Further windows of of_nsmb_con give the optimum of each. One background or one free amplitude works like many; windows and all other arguments are left unchanged, and a polarity given as a number means the same as in an array.",
  over=["inputs", "configurations"], quant="all signals, templates, PSDs, polarity patterns and windows",
  why="Two tests store the answer of one simulated trace with a positive constraint; edge windows, one background, mixed polarities and degenerate templates are not reached.",
  files=[NS], mech=[("least squares per delay", NS + ":of_nsmb"), ("active-set search for polarities", NS + ":of_nsmb_con, of_mb, _constrained_templates, _index_disallowed, _interpchi2"), ("filter matrices", NS + ":of_nsmb_setup, of_nsmb_getPf, of_nsmb_getiP")],
  technique=ENUM, note="All signals over {-1,0,1}^5, all 3^(1+m) polarity patterns and all windows against an exhaustive subset-enumeration solver; 8 defects found this way were repaired."),
 dict(id="C08", title="Slope, dc and TTL background templates are exactly the documented shapes",
  statement="For every trace length, the slope/dc builder returns a ramp k/nbin and a constant of exactly nbin bins, both with nan shifts. The TTL builder returns one background template per laser pulse whose period fits into the trace (first pulse: the template rolled back by half the pulse train; each later one the first moved to its whole number of periods rounded to a bin, zero-padded in front, never wrapped), then slope and constant; matching start shifts and polarity constraints (0, +1 or -1 as asked, 0 for slope and constant); and a search window of all bins except those within notch_window_size of a start shift, wrapped into the trace. The template is unchanged.",
  over=["configurations"], quant="all trace lengths, pulse rates (also non-integer periods), sample rates and notch widths",
  why="Tests use one trace length and rate; off-by-one bins depend on floating-point rounding of period and length.",
  files=[NS], mech=[("template builders", NS + ":get_slope_dc_template_nsmb, maketemplate_ttlfit_nsmb")],
  technique=ENUM, note="Every trace length to 600/4000 and every whole and half-integer period to 40/90 bins, in exact rational arithmetic."),
 dict(id="C09", title="Power spectra obey Parseval and the one-sided, folded and averaged forms agree",
  statement="For every real trace batch (1, 2 or 3 dimensions) of any length, calc_psd returns |DFT|^2/(n fs), averaged over traces, whose integral is the mean square of the traces; the folded form doubles every bin except the zeroth and (even length) the Nyquist bin, on the matching frequency axis, equals foldpsd of the two-sided form and has the same integral. smooth_psd returns a symmetric two-sided PSD that never rises with frequency and leaves alone every bin that lies below all bins of lower frequency and is never below the smallest of them (in particular a positive PSD stays positive). Inputs are not modified.",
  over=["inputs", "configurations"], quant="all traces, lengths (even and odd), batch dimensions and sample rates",
  why="Tests only check that a noise object runs; odd lengths, Nyquist handling, batch dimensions and smoothing corner cases are never compared with the definition.",
  files=[N], mech=[("PSD definition, folding, smoothing", N + ":calc_psd, foldpsd, smooth_psd")],
  technique=ENUM, note="All traces over a small alphabet up to length 6/8 and all symmetric 3-level PSDs up to length 9/11; oracle is a direct DFT sum."),
 dict(id="C10", title="Generated noise has exactly the requested spectrum",
  statement="gen_noise is linear in its white-noise source and, over unit-variance independent source values, its expected PSD equals the given two-sided PSD in every bin (an infinite zeroth bin counts as zero), is stationary, real and of shape (ntraces, n), with every trace driven by its own random values; the caller's PSD is not modified.",
  over=["inputs", "schedules"], quant="all PSDs, lengths, sample rates, trace counts and all source values (by linearity)",
  why="A test can only sample noise and compare within statistical errors; driving the source through all unit vectors determines the covariance exactly.",
  files=[N], mech=[("shaping of white noise", N + ":gen_noise")],
  technique="exhaustive enumeration of the random source (all unit vectors through a controlled generator) on the real code, exact covariance oracle", note="Lengths to 24/64; the nondeterminism (random values) is covered completely through linearity, which is itself tested."),
 dict(id="C11", title="Noise object: every spectrum belongs to the current traces, whatever the history",
  statement="After any sequence of calculate_psd, calculate_csd, calculate_corrcoeff, calculate_uncorr_noise and remove_trace_slope, each result equals its definition applied to the current traces (gain applied once): mean one-sided PSD and its real/imaginary parts, Hermitian Hann-window cross spectra with their standard deviations, correlation coefficients in [-1,1], uncorrelated noise = 1/diag(inverse csd) and correlated = total - uncorrelated. Slope removal removes exactly the straight-line component for the given time axis. Single-channel objects refuse cross spectra with ValueError, bad channel counts raise ValueError, save/load reproduces the object, and the caller's traces stay unmodified.",
  over=["histories", "inputs", "configurations"], quant="all operation sequences, lengths, channel counts, gains and sample rates",
  why="Tests call each method once in one order; stale intermediate spectra only show in particular orders.",
  files=[N], mech=[("state carried between methods", N + ":Noise.calculate_*, remove_trace_slope"), ("normalisation and folding", N + ":Noise.calculate_psd, calculate_csd")],
  technique=BFS, note="BFS to depth 5 over the 5 operations in 4 configurations plus all sequences to length 3/4, and every length 4..17/40."),
 dict(id="C12", title="Iterative outlier removal converges to the documented self-consistent set",
  statement="iterstat and itercov terminate and return a mask that is the fixed point reached from the full data (points within cut standard deviations / below the chi-square limit and the per-axis threshold of the kept points), with the mean, standard deviation / covariance of exactly the kept points; if fewer than two points would remain nothing is cut. The unbiased estimates reproduce the moments of the truncated data. removeoutliers keeps a non-empty contiguous range of values, drops infinities, drops, step by step, the values farther from the median of the kept ones than the nearer extreme value, and stops as soon as the skewness is within the target or no further step is possible. Results do not depend on order, units or offset of the data, or on the call form of itercov; inputs are not modified.",
  over=["inputs"], quant="all data sets, cuts, skewness targets, dimensions and call forms",
  why="Tests check one Gaussian sample; tied values, small samples, non-converging iterations and reorderings need enumeration.",
  files=[CUTF], mech=[("iteration and stopping rule", CUTF + ":iterstat, itercov"), ("skewness minimisation", CUTF + ":removeoutliers")],
  technique=ENUM, note="All multisets to 5/8 values of a small grid and cores with outliers at all pairs of positions."),
 dict(id="C13", title="Automatic cuts are the composition of their stages and remove what each stage is for",
  statement="autocuts returns one boolean per trace; any combination of enabled stages equals applying the enabled stages one at a time in order (pile-up, slope, baseline, mean-subtracted pile-up for dIdV only, chi-square) to the survivors. A trace with an outlying pulse, slope, baseline or chi-square is removed by its stage at whatever position it stands; each stage is the outlier removal (on the symmetrised distribution for slopes, if asked for) of one number per trace: amplitude or chi-square of the best-fitting 10/100 µs pulse in white noise, difference of the means of the last and first tenth of the trace, mean of the first tenth (for dIdV, of the flat parts of the last and first complete period, or of the two halves of the flat part if there is one period); each nsig parameter acts on its own stage only; the slope and mean-subtracted pile-up cuts ignore per-trace offsets; all ignore the order and the overall scale of the traces; the slope cut of periodic dIdV signals sees no slope in amplitude differences. Unknown outlier algorithms raise ValueError; the traces are not modified.",
  over=["configurations", "inputs"], quant="all stage combinations, outlier algorithms, positions of bad traces and parameter settings",
  why="The only test (whose data file is missing) checks that a mask has positive length; index bookkeeping between stages and per-stage parameters are not checked.",
  files=[CUTF], mech=[("index maps between stages", CUTF + ":autocuts"), ("per-stage statistics", CUTF + ":pileupcut, slopecut, baselinecut, chi2cut")],
  technique=ENUM, note="All 32 stage subsets x algorithm x dIdV x populations, composition law judged through the public function itself."),
 dict(id="C14", title="Symmetrised distributions and saturated-muon flags follow their definitions",
  statement="symmetrizedist keeps all values on the thinner side of zero, keeps in each histogram bin on the heavier side exactly as many values as the mirrored bin holds (at most all) and nothing beyond the mirrored range, for every outcome of the random choice and for both signs. get_muon_cut flags exactly the traces that stay above the threshold fraction of their maximum until nsatbins bins after the peak, and never one whose peak is within nsatbins of the end.",
  over=["inputs", "schedules"], quant="all value sets, random choices, traces, thresholds and durations",
  why="Neither function is tested at all.",
  files=[CUTF], mech=[("random thinning of histogram bins", CUTF + ":symmetrizedist"), ("saturation test", CUTF + ":get_muon_cut")],
  technique="bounded exhaustive enumeration including every random choice (scripted chooser) on the real code", note="All multisets of small alphabets to 7/9 values, 16/25-value histograms, and all small traces."),
 dict(id="C15", title="Impedance, admittance and square-wave response forms",
  statement="The complex impedance and admittance functions implement the documented one-, two- and three-pole small-signal circuit forms for every positive, negative, zero and array frequency, loop gains below and above one and any subset of model parameters that selects a model; admittance is the reciprocal of impedance; parameter sets that match no model raise ValueError. The square-wave response is the periodic steady-state current of that circuit to the square-wave jitter of given amplitude, frequency, duty cycle and r_shunt for any number of periods and bins per period.",
  over=["inputs", "configurations"], quant="all circuit parameters, frequencies, parameter subsets, duty cycles, period counts, even and odd bins per period",
  why="Tests only run fits; no test relates any of these functions to the circuit equations.",
  files=[DB], mech=[("impedance forms and model selection", DB + ":complexadmittance, compleximpedance"), ("Fourier synthesis", DB + ":squarewaveresponse")],
  technique=ENUM, note="Complete parameter grids; oracle is the circuit formula and an independent Fourier synthesis plus the closed-form exponential steady state."),
 dict(id="C16", title="dIdV processing averages whole periods and deconvolves the square wave exactly",
  statement="For every commensurable pair of sample rate and signal frequency, number of complete periods, partial tail, gain and duty cycle, processing keeps exactly the complete periods, reports mean, spread, offset and offset error of the traces in the units of the gain, and its admittance at every driven harmonic (add180phase and time offset included) is the circuit's true one, while undriven harmonics carry no weight. Traces holding undefined samples are left out, as if they had not been given. Incommensurable sample and signal rates raise ValueError, or with autoresample are resampled (with a warning) to a commensurable rate that keeps every complete period. The caller's traces are not modified.",
  over=["inputs", "configurations"], quant="all sample rates, signal frequencies, period counts, tails, duty cycles, phases, gains and time offsets",
  why="Tests use one sample rate and period count; float rounding drops a period or a harmonic only for particular pairs and offsets.",
  files=[DB], mech=[("period bookkeeping", DB + ":_BaseDIDV.processtraces"), ("deconvolution", DB + ":deconvolvedidv")],
  technique=ENUM, note="Table of 13x21 rate pairs x period counts x tails, 5 circuits x duty cycles x phases; five defects found this way were repaired."),
 dict(id="C17", title="dIdV objects: histories of calls and equivalent descriptions give the same answers",
  statement="Whatever was processed, fitted, cut or queried before on a DIDV or DIDVPriors object, each fit answers as on a fresh object, each query returns the last fit of that model or an empty dictionary with a warning, and a refused fit changes nothing. Equivalent descriptions of a measurement (trace gain, jitter amplitude scaled with the traces, order and repetition of traces, a whole-period shift, a partial tail, a constant current offset, add180phase or the explicit half-period time offset, unneeded autoresample) give the same circuit, and an object rebuilt with didvinitfromdata from processed data answers as the original.",
  over=["histories", "configurations"], quant="all sequences of processing, fits with and without cut-off, and queries; all listed equivalences",
  why="Tests run one fit per object in one fixed order; a second processing or fit is never compared with the first.",
  files=[DB, DD, DP], mech=[("state set by processing and reused by fits", DB + ":_BaseDIDV.processtraces, dofit"), ("rebuilding from data", DD + ":didvinitfromdata")],
  technique=BFS, note="Object state space explored to the fixpoint over 10 operations, plus all sequences to depth 2/3 on fresh objects; three defects found this way were repaired."),
 dict(id="C18", title="dIdV fits recover the circuit with the statistics of the reported cost",
  statement="For circuits within reach of the starting values, the 1-, 2- and 3-pole fits (with and without priors, with a frequency cut-off, for any duty cycle, phase and time guess within half a sample) of noiseless traces recover the true parameters; the reported cost is the weighted squared admittance residual of the reported parameters, covariance and errors are those of that cost, reported fall times are the natural time constants (poles) of the reported circuit, and fit parameters and small-signal parameters describe the same circuit, with its zero-frequency admittance.",
  over=["inputs", "configurations"], quant="all circuits of the grid, time offsets, duty cycles, cut-offs, priors",
  why="Tests only check that the result is a dictionary; parameter recovery, cost, covariance and fall times are never asserted.",
  files=[DB, DD, DP], mech=[("residuals and least squares", DD + ":DIDV.dofit"), ("priors", DP + ":DIDVPriors.dofit"), ("fall times", DB + ":_BaseDIDV._findpolefalltimes")],
  technique=ENUM, note="Grid of circuits x configurations synthesised independently; scipy's minimiser is trusted within the documented region of starting values."),
 dict(id="C19", title="IV curves: resistances, currents, powers and errors follow circuit algebra",
  statement="For every dimension (1-3), load-resistance shape and normal-point selection IV computes the weighted straight-line fit of the normal points (offset, fit resistance and their errors), rnorm = rfit - rload, TES current, resistance r0 and power by Ohm's law, each with first-order propagated errors of bias, current, offset and load resistance; automatic selection uses the points before the first one at which the reduced chi-square of the line through the points so far exceeds 10. NaN padding stays confined to padded points, repeated calc_iv gives the same results, inputs are not modified and inconsistent shapes raise ValueError.",
  over=["inputs", "configurations"], quant="all data shapes, load-resistance shapes, point selections, polarities",
  why="The tests assert that r0 is non-empty for one data set.",
  files=[IVF], mech=[("broadcasting of rload", IVF + ":IV.__init__"), ("fit, subtraction, error propagation", IVF + ":IV.calc_iv")],
  technique=ENUM, note="All combinations of 6 shapes, 4 rload forms, 4 selections, 2 polarities, noise on/off; numerically differentiated error propagation as oracle."),
 dict(id="C20", title="Resampling makes the samples per signal period an integer",
  statement="For all positive integer sample and signal frequencies resample_factors returns positive integers (up, down) such that fs*up/down is an integer multiple of the signal frequency, never less than half of fs nor raised beyond twice fs unless the denominator of fs/sgfreq requires it, and (1, 1) if it already is; resample_data resamples along the requested axis by these factors and reports the new sample rate; non-integer frequencies raise.",
  over=["inputs"], quant="all pairs of sample and signal frequency, array shapes and axes",
  why="Tests check a few pairs; the factor arithmetic depends on the prime factorisation and fails only for some.",
  files=[U], mech=[("factor arithmetic", U + ":resample_factors"), ("application", U + ":resample_data")],
  technique=ENUM, note="All pairs to 240x240 (1200x700 thorough) and realistic sample rates; exact rational oracle."),
 dict(id="C21", title="Array helpers shift, make_template, make_decreasing, fill_negatives and slope are exact",
  statement="shift moves values by the requested (also fractional, linearly interpolated) number of bins along the first axis, filling vacated bins, for integer and float arrays of any dimension; make_template is the documented two-exponential pulse of unit maximum starting at the centre plus the offset; make_decreasing tosses values not below the last kept one and interpolates between the kept points (x even or uneven), never increasing and never below the smallest value; fill_negatives replaces exactly the values that are zero or negative by interpolation between the positive ones; slope is the least-squares slope with or without mean removal. shift and make_decreasing do not modify their inputs.",
  over=["inputs"], quant="all small arrays, shifts, offsets and time constants",
  why="Tests cover at most one generic case of each helper.",
  files=[U], mech=[("bin arithmetic and interpolation", U + ":shift, make_template, make_decreasing, fill_negatives, slope")],
  technique=ENUM, note="All sequences over small alphabets, all quarter-bin shifts, all offsets, against bin-by-bin definitions."),
 dict(id="C22", title="Trace averages, low-pass filtering and alignment use exactly the stated samples",
  statement="calc_offset averages exactly the whole periods contained in the trace (all of them, never a fraction; whole trace when there is no signal frequency) for any sample rate and gives the matching standard error; lowpassfilter has the zero-phase forward-backward Butterworth response of the given cut-off and order along the last axis; align_traces finds the relative start of pulses for integer and float traces with the given filter settings and masks exactly the bins shifted in. Inputs are not modified.",
  over=["inputs", "configurations"], quant="all periods, remainders, sample rates, shifts, dtypes and filter settings",
  why="Tests use one sample rate and length; rounding loses a whole period only for particular rates, and the alignment function is not tested.",
  files=[U], mech=[("period arithmetic", U + ":calc_offset"), ("filter set-up", U + ":lowpassfilter, align_traces")],
  technique=ENUM, note="Every samples-per-period 2..40 x periods 1..6 x remainder class x sample rates; every start offset."),
 dict(id="C23", title="Power, absorbed energy, muon offset and thermal conductance conversions",
  statement="powertrace_simple and energy_absorbed implement P = I V_b - (Rl)I^2 and its baseline-subtracted time integral (fs or explicit time axis, baseline from given value or pre/post region) for traces of 1-4 dimensions; get_offset_from_muon returns the offset and bias point consistent with a normal, saturated device; estimate_g returns G with its covariance propagated to first order (any covariance, not modified).",
  over=["inputs", "configurations"], quant="all circuit values, trace dimensions, baseline regions, covariances",
  why="Tests check one trace; higher dimensions, regions on both sides and the covariance path are not exercised.",
  files=[U], mech=[("integration and baseline regions", U + ":energy_absorbed, powertrace_simple"), ("propagation", U + ":estimate_g, get_offset_from_muon")],
  technique=ENUM, note="All combinations of small parameter grids and every baseline region of an 8-bin trace, against independent sums and numerical derivatives."),
 dict(id="C24", title="TES noise model solves the linearised electro-thermal equations",
  statement="TESnoise's dIdV and dIdP equal the solution of the linearised electrical and thermal equations at every frequency; each current-noise term equals the corresponding source spectrum times the squared transfer function, power-noise terms equal current-noise terms divided by |dIdP|^2, totals equal the sum of their parts, in and out of transition and in the ballistic and diffusive limits; results for explicit frequencies agree with those at the object's own, which are not changed. energy_res_estimate integrates the one-sided spectrum as documented.",
  over=["inputs", "configurations"], quant="all device parameters, frequencies (array, scalar, negative), limits",
  why="Tests check that noise simulation runs for one parameter set.",
  files=[S], mech=[("response functions and noise terms", S + ":TESnoise.*"), ("resolution integral", S + ":energy_res_estimate")],
  technique=ENUM, note="Full product of small parameter grids; the oracle solves the 2x2 complex system numerically."),
 dict(id="C25", title="IBIS curves: parasitic, normal resistance, offsets, powers and errors follow circuit algebra",
  statement="For every data dimension (1-3), rp_guess shape, offset override (numbers or arrays) and index selection IBIS computes the weighted fits of the normal and superconducting branches, their intersection as current and bias offsets, rp and rnorm, and for every point the TES current, bias voltage, resistance and power with first-order propagated errors; noiseless data recover the true circuit. Repeated analysis gives the same results, inputs are not modified and inconsistent shapes raise ValueError.",
  over=["inputs", "configurations"], quant="all data shapes, parasitic-resistance shapes, offset overrides, selections",
  why="Tests assert stored numbers for one data set in one configuration.",
  files=[IBF], mech=[("line fits, intersection, error propagation", IBF + ":IBIS.analyze and helpers"), ("broadcasting of rp_guess", IBF + ":IBIS.__init__")],
  technique=ENUM, note="Full product of shapes and options, noisy and noiseless, against closed-form fits and analytic propagation."),
 dict(id="C26", title="A noise model loaded from a fit is the model of the fitted circuit",
  statement="loadfromdidv returns a noise object of exactly the circuit found by the latest fit of the model that goes with the noise type (2 poles for 'transition', 1 pole for 'superconducting' and 'normal'), with every other parameter as given (by name or position; the type compared by value): its admittance and all noise terms equal those of a noise object written out by hand. Earlier or later fits of other models do not matter and the fit object is unchanged; 'normal' without rnormal or an unknown noise type raises ValueError, and a missing two-pole fit raises.",
  over=["histories", "configurations"], quant="all circuits, fit histories, noise types and parameter sets",
  why="Tests load one model after one fit and check nothing about its parameters.",
  files=[S, DD, DP], mech=[("mapping of fit results to parameters", S + ":loadfromdidv"), ("latest results", DB + ":_BaseDIDV.fitresult")],
  technique=BFS, note="All fit sequences to length 3 over DIDV and DIDVPriors objects x noise types; oracle is the documented impedance and a hand-written noise object."),
 dict(id="C27", title="Plots show exactly the requested data, save exactly the requested files, change nothing",
  statement="For every plot method of IV, IBIS, Noise and dIdV objects, the noise comparison and noise-model plots and the diagnostic plots of the nSmB and pulse fits: the figure contains the curves of exactly the requested temperatures, channels, poles or spectra (a number, list, tuple or array or 'all') in the units of the axes, with their own error bars where errors are drawn, labelled axes and a legend, and no other data; fitted curves lie on noiseless data; a file is written if and only if saving is requested, under the documented name and path; nothing is drawn for spectra not yet calculated. The object, the arguments, other open figures, matplotlib's settings and the fit results are unchanged.",
  over=["configurations"], quant="all argument forms and option combinations, channel counts, sets of fits made",
  why="Tests call each plot once and check nothing about content, files or side effects.",
  files=["qetpy/plotting/_iv_plotting.py", "qetpy/plotting/_ibis_plotting.py", "qetpy/plotting/_noise_plotting.py", "qetpy/plotting/_of_nsmb_plotting.py", "qetpy/plotting/_fitting_plotting.py", "qetpy/core/didv/_plot_didv.py"],
  mech=[("selection of temperatures and channels", "qetpy/plotting/_iv_plotting.py:plot_iv, plot_rv, plot_pv"), ("time offsets of data and fits", "qetpy/core/didv/_plot_didv.py:_PlotDIDV._plot_time_domain, _plot_freq_domain"), ("spectra", "qetpy/plotting/_noise_plotting.py:plot_*")],
  technique=ENUM, note="Every option combination executed in a scratch directory with monitors on files, figures, objects and global settings; rendering itself (matplotlib) is trusted."),
 dict(id="C28", title="Public functions depend only on the values of their arguments and change nothing else",
  statement="Every public computing function and class answers the same whatever the memory representation of its array arguments (read-only, strided, reversed, Fortran-ordered, byte-swapped, slices of larger arrays, integers for measured values), whatever was computed before in the process (also by another object of the same class in between) and whatever numpy's global settings and random state are; it leaves its arguments, the memory around them and global state (error handling, print options, working directory, random generator unless it draws random numbers) unchanged. Results already given by an object are not altered by what is asked of it later. Only fill_negatives, documented to work in place, changes its argument.",
  over=["histories", "inputs"], quant="all pairs of calls, all histories of 2 (thorough 3) operations of each class, all argument representations",
  why="Tests pass fresh contiguous arrays and never look at the arguments afterwards.",
  files=[F, U, S, N, CUTF, IVF, IBF, NS, DB, DD, DP], mech=[("in-place arithmetic on arguments", CUTF + ":pileupcut, iterstat; " + U + "; " + N), ("lazy and cached state", F + ":OptimumFilter")],
  technique="exhaustive enumeration of call x argument representation and of all ordered pairs of calls on the real package, bit-exact monitors of arguments and global state", note="About 100 calls x 8 representations and all ordered pairs; longer histories are covered per class by C05, C11, C17."),
 dict(id="C29", title="Optional arguments: leaving one out means its documented default, by name or by position",
  statement="For every public computing function, constructor and method, leaving out any optional argument gives the answer of writing it out with its documented default; arguments can be given by name or, where documented so, by position in the documented order, required arguments also by their documented names, and all these ways to write a call give the same answer, whatever the other arguments are; so do numbers, flags and index lists of equal value but another type (int, float, numpy scalar, tuple, array).",
  over=["inputs"], quant="all call forms x settings of up to two optional arguments",
  why="Tests write each call in one form and mostly pass every argument that matters; a changed default silently changes other people's results.",
  files=[F, U, S, N, CUTF, IVF, IBF, NS, DB, DD, DP], mech=[("signatures and their hand-over to the next layer", F + "; " + CUTF + ":autocuts; " + DD + "; " + U)],
  technique="exhaustive enumeration of call forms (subsets of arguments left out, positional prefixes, names) on the real functions against the fully written-out call", note="79 calls, 286 optional arguments; plotting options are covered by C27."),
]
NOT_APPLICABLE = []
NOTES = "Checks are pure Python on /opt/venv, import qetpy from /repo, fork 8 workers and write only under /verif/evidence and private temp dirs."
