"""Single source of /verif/properties.jsonl.  Run:  python3 spec/props.py"""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=["dsptoolbox/" + f for f in files],
                     mechanism=[dict(name=n, where="dsptoolbox/" + w)
                                for n, w in mech])))


# ---------------------------------------------------------------- containers
prop("C01", "A signal stores exactly the samples it was given",
     "Constructing a signal from an array, or assigning new time data, keeps every sample and channel "
     "(one sample per row, one channel per column, a transposed or one-dimensional array being oriented that way; "
     "the imaginary part of complex data is kept alongside). With amplitude constraining off the data is untouched; "
     "with it on, data whose peak exceeds one is divided by that peak, which is recorded as the scale factor, and other data is untouched.",
     ["inputs", "configurations"], "all array shapes, real/complex contents, peaks below or above one, constrained or not",
     "Tests construct a handful of fixed signals and look at shapes.",
     ["classes/signal.py", "classes/impulse_response.py"],
     [("time data setter", "classes/signal.py"), ("from_time_data", "classes/signal.py")])

prop("C02", "Editing channels moves whole channels and leaves the rest alone",
     "Adding, removing, selecting, reordering, summing or appending channels of signals yields exactly the named channels in the "
     "named order, sample for sample (zero-padded or trimmed to the first signal's length where the operation allows it), for real and "
     "complex signals and impulse-response windows alike. Sampling rate and length are those of the first signal, and channels not named are unaffected.",
     ["inputs", "configurations"], "all lengths, channel counts, channel lists and real/complex contents",
     "Tests use two or three channels of one random signal.",
     ["classes/signal.py", "classes/impulse_response.py", "standard/appending.py"],
     [("add/remove/swap/get/sum channels", "classes/signal.py"), ("append_signals", "standard/appending.py")])

prop("C03", "A spectrum, CSM or spectrogram query never returns stale data",
     "After any sequence of queries and changes to a signal (new samples, channel edits, spectrum method, scaling or smoothing "
     "settings, spectrogram settings), the next spectrum, cross-spectral matrix or spectrogram query returns what a fresh signal with the same "
     "samples and settings returns. Asking twice without changes returns the same answer, and a returned array is not changed by later queries.",
     ["histories"], "all interleavings of queries and mutations on one signal",
     "Cache bugs need a specific order of query, change and query; tests follow a few fixed orders.",
     ["classes/signal.py"],
     [("state-update flags", "classes/signal.py"), ("get_spectrum/get_csm/get_spectrogram", "classes/signal.py")])

prop("C04", "Multiband containers keep bands consistent and collapse to their sum",
     "A multiband signal reports the number of bands and channels, sampling rate and length of the bands it holds, and adding, removing, "
     "swapping or selecting bands yields exactly the named bands in the named order. Collapsing it yields the sample-wise sum of all its bands "
     "(real and imaginary), without changing the bands.",
     ["inputs", "histories"], "all band contents, band orders and edit sequences",
     "Tests use a fixed three-band signal and never look at the bands after collapsing.",
     ["classes/multibandsignal.py"],
     [("bands setter / add_band / remove_band / swap_bands", "classes/multibandsignal.py"), ("collapse", "classes/multibandsignal.py")])

prop("C05", "A spectrum object returns the stored data at the stored frequencies",
     "A spectrum keeps the frequency vector and data it was built from; reading it back as complex, magnitude, power or decibel agrees with that data, "
     "interpolating at its own frequencies returns the stored values, linear interpolation lies on the chord between neighbouring bins in the chosen domain, "
     "and values outside the range follow the chosen edge handling. Channel edits and trimming keep exactly the named channels or the bins inside the range.",
     ["inputs", "configurations"], "all frequency vectors, contents, interpolation domains and edge-handling choices",
     "Tests use one spectrum and mostly check shapes.",
     ["classes/spectrum.py", "standard/appending.py"],
     [("get_interpolated_spectrum", "classes/spectrum.py"), ("trim", "classes/spectrum.py")])

prop("C06", "Operations return new objects and leave their arguments unchanged",
     "Level, gain, fade, pad, trim, delay, append, resample-free filtering, windowing and transform functions return new objects: "
     "the samples, settings and arrays passed in are the same after the call as before, and later in-place changes to the result do not reach the argument. "
     "Copying a signal, filter, filter bank or multiband signal gives an equal but independent object.",
     ["inputs", "histories"], "all inputs of the listed operations",
     "No test compares arguments before and after, and aliasing shows only in later use.",
     ["standard", "helpers", "classes", "transfer_functions", "effects"],
     [("copy_with_new_time_data / copy", "classes/signal.py"), ("array helpers", "helpers/gain_and_level.py")])

# ---------------------------------------------------------------- time domain
prop("T01", "Padding and trimming keep the surviving samples in place",
     "Padding or trimming a signal, multiband signal or impulse response to a length yields exactly that length, with zeros added or samples removed only at the "
     "chosen end and every surviving sample unchanged. Lengthening or shortening by start and end durations adds or removes the corresponding number of samples "
     "at each end.",
     ["inputs"], "all lengths (longer, equal, shorter), ends, channel counts and contents",
     "Tests try one longer and one shorter length.",
     ["standard/pad_trim_methods.py", "helpers/other.py"],
     [("pad_trim", "standard/pad_trim_methods.py"), ("_pad_trim", "helpers/other.py"), ("modify_signal_length", "standard/pad_trim_methods.py")])

prop("T02", "Trimming selects the requested time window or level range",
     "Trimming by time returns the contiguous samples between the start and end times (end sample included when inclusive), and trimming by level returns "
     "the span from the first to the last sample at which any channel reaches the threshold, at whichever ends are requested. The returned indices are those of the returned span and "
     "all samples inside are unchanged.",
     ["inputs"], "all contents, thresholds and times",
     "Tests check one threshold on one signal.",
     ["standard/pad_trim_methods.py"],
     [("trim_with_level_threshold", "standard/pad_trim_methods.py"), ("trim_with_time_selection", "standard/pad_trim_methods.py")])

prop("T03", "Delaying shifts selected channels by whole samples",
     "Applying an integer-sample delay prepends exactly that many zeros to the selected channels and leaves the others undelayed, with the original "
     "length kept on request and otherwise extended by the delay. All samples keep their values and order.",
     ["inputs"], "all delays, channel selections, lengths and contents",
     "Tests use one delay on one signal.",
     ["standard/latency_delay.py"], [("delay", "standard/latency_delay.py")])

prop("T04", "Framing and overlap-add invert each other",
     "Splitting a signal into frames gives frame k the samples k*step to k*step+window (zero outside the signal when padding), and overlap-adding "
     "frames places each at its step and divides by the accumulated window wherever that is non-zero. Reconstructing a windowed framing returns "
     "the original samples wherever windows overlap.",
     ["inputs"], "all lengths, windows, steps, channel counts",
     "Tests use one window and step that divide the length.",
     ["standard/_framed_signal_representation.py", "helpers/other.py", "transforms/transforms.py"],
     [("_get_framed_signal", "standard/_framed_signal_representation.py"), ("_reconstruct_framed_signal", "standard/_framed_signal_representation.py"), ("_compute_number_frames", "helpers/other.py")])

prop("T05", "Polyphase decomposition is lossless",
     "Decomposing a signal into M polyphase components puts sample n of the (front-zero-padded) signal into component n mod M, row n div M, "
     "and reconstruction interleaves them back into exactly that signal, for every M, length and channel count. "
     "The reported padding is the number of zeros actually added.",
     ["inputs"], "all M, lengths and channel counts", "Tests use one length divisible by M.",
     ["helpers/polyphase.py"], [("_polyphase_decomposition/_reconstruction", "helpers/polyphase.py")])

prop("T06", "Fades only scale the faded ends",
     "A fade multiplies the first and/or last samples of each channel by a curve that runs from (nearly) silence at the edge to unity, and leaves all other "
     "samples unchanged. Start and end fades mirror each other and do not depend on the other channels.",
     ["inputs"], "all fade types, lengths and contents", "Tests check only that the call runs.",
     ["helpers/gain_and_level.py", "standard/gain_and_level.py"], [("_fade", "helpers/gain_and_level.py"), ("fade", "standard/gain_and_level.py")])

# ---------------------------------------------------------------- level
prop("L01", "Decibel conversion and its inverse agree",
     "Converting a level to linear and back returns it, with 20 dB per decade for amplitude and 10 for power; conversion depends only on magnitude, "
     "is monotone and never falls below the given minimum value or dynamic range below the peak. Mel-scale conversion and its inverse agree likewise.",
     ["inputs"], "all values, arrays, floors and both conventions", "Tests check two or three numbers.",
     ["helpers/gain_and_level.py", "helpers/frequency_conversion.py", "tools.py"],
     [("to_db/from_db", "helpers/gain_and_level.py"), ("_hz2mel/_mel2hz", "helpers/frequency_conversion.py")])

prop("L02", "Gain and normalization scale to exactly the requested level",
     "Applying a gain in dB multiplies every sample of the selected channel (real and imaginary parts), or a filter's response, by exactly that factor. Normalizing to "
     "a peak or RMS level makes the peak or RMS of the whole signal (or of each channel when asked) equal that level, with one common factor per signal or channel.",
     ["inputs", "configurations"], "all contents, gains, targets (signal, multiband, filter, filter bank)",
     "Tests check one gain on one real signal.",
     ["standard/gain_and_level.py", "helpers/gain_and_level.py"],
     [("apply_gain", "standard/gain_and_level.py"), ("_normalize", "helpers/gain_and_level.py")])

prop("L03", "Level meters report the defined quantity per channel",
     "RMS is the root mean square deviation of each channel (in dBFS on request) and crest factor is the ratio of absolute peak to RMS, per channel and per band. "
     "Scaling a channel by a factor moves its RMS by exactly that factor and leaves its crest factor unchanged.",
     ["inputs"], "all contents and channel counts", "Tests compare against numpy on one random signal.",
     ["standard/gain_and_level.py", "helpers/gain_and_level.py"], [("rms, crest_factor", "standard/gain_and_level.py"), ("_rms", "helpers/gain_and_level.py")])

# ---------------------------------------------------------------- filters
prop("F01", "Real-time FIR filtering equals convolution for every sample history",
     "Feeding samples one at a time into the FIR filters, after any history and for any number of channels, yields the convolution of that channel's full input with the taps; "
     "channels do not influence each other and resetting restores the initial silence.",
     ["histories", "inputs"], "all taps, sample sequences, interleavings of channels",
     "The ring-buffer position and cross-channel state depend on the whole history; tests use one impulse.",
     ["classes/fir_filter_realtime.py"], [("FIRFilter", "classes/fir_filter_realtime.py")])

prop("F02", "Block-based FIR convolution equals direct convolution",
     "Processing a signal in consecutive blocks with the overlap-save and partitioned convolution filters yields, after every block, the same samples as "
     "direct convolution of the complete input with the impulse response, for every block size, filter length and channel.",
     ["histories", "inputs"], "all block sizes, tap counts, block sequences, channel counts",
     "Tests use one block size and one channel.",
     ["classes/fir_filter_realtime.py"],
     [("FIRFilterOverlapSave, FIRUniformPartitioned", "classes/fir_filter_realtime.py")])

prop("F03", "Real-time IIR filtering follows the difference equation",
     "Sample-by-sample IIR, biquad and state-space filtering yields, after any history and per channel independently, the output of the normalised difference "
     "equation given by the coefficients. Coefficients passed by the user are not modified.",
     ["histories", "inputs"], "all coefficients, orders, histories and channels",
     "Tests compare one filter with scipy on one channel.",
     ["classes/iir_filter_realtime.py", "classes/state_space_filter.py", "classes/sv_filter.py", "classes/filter_chain.py"],
     [("IIRFilter.process_sample", "classes/iir_filter_realtime.py"), ("StateSpaceFilter", "classes/state_space_filter.py")])

prop("F04", "Smoothing and chained real-time processors keep per-channel state",
     "The exponential averager moves each channel's state towards its input with the attack coefficient when the input is above that channel's state and the release coefficient otherwise; "
     "the state-variable filter's outputs recombine to its input relation; a chain feeds each sample through its members in order.",
     ["histories", "inputs"], "all coefficient values, histories, channels", "Tests use one channel.",
     ["classes/exponential_average_filter.py", "classes/sv_filter.py", "classes/filter_chain.py"],
     [("ExponentialAverageFilter.process_sample", "classes/exponential_average_filter.py"), ("FilterChain", "classes/filter_chain.py")])

prop("F05", "Parametric equalizer coefficients meet their specification",
     "A designed second-order section has the specified gain and shape: peaking filters have the requested gain at the centre frequency and unity at 0 Hz and Nyquist, shelves have the "
     "requested gain at their end and unity at the other, low/high/band-pass and notch filters have their nulls and unity points, all-pass filters have unit magnitude; "
     "the denominator is stable.",
     ["inputs"], "all frequencies, gains, Q values and sampling rates", "Tests only build a filter of each type.",
     ["classes/filter_helpers.py", "classes/filter.py"], [("_biquad_coefficients", "classes/filter_helpers.py")])

prop("F06", "A filter bank combines its filters as its mode says",
     "Filtering with a bank in parallel returns one band per filter, each equal to that filter's own output; sequential mode cascades the filters in order; "
     "summed mode returns the sum of the parallel outputs. The bank's transfer function in each mode combines the filters' transfer functions the same way, and "
     "adding, removing or swapping filters affects only the named ones.",
     ["inputs", "configurations", "histories"], "all filters, signals and modes", "Tests run each mode once without comparing.",
     ["classes/filterbank.py", "classes/filter_helpers.py"], [("filter_signal / get_transfer_function", "classes/filterbank.py")])

prop("F07", "Filtering touches only the requested channels and keeps state per channel",
     "Filtering a signal filters the selected channels with the filter's coefficients and copies the others; with state activated, filtering consecutive blocks "
     "gives the same samples as filtering the concatenated signal at once. Zero-phase filtering equals forward-backward filtering.",
     ["inputs", "histories"], "all channel selections, block splits, filters", "Tests filter one block.",
     ["classes/filter.py", "classes/filter_helpers.py"], [("_filter_on_signal", "classes/filter_helpers.py"), ("Filter.filter_signal", "classes/filter.py")])

prop("F08", "Warped, Kautz, lattice and parallel filters: samples and blocks agree",
     "For the parallel, Kautz, warped and lattice filters the sample-by-sample real-time path produces the same output as filtering the whole signal, for every channel; a lattice filter made from coefficients filters like those coefficients, and the Kautz sections are orthonormal.",
     ["histories", "inputs"], "all coefficients and inputs", "Tests use one impulse.",
     ["classes/parallel_filter.py", "classes/kautz_filter.py", "classes/warped_filters.py", "classes/lattice_ladder_filter.py"],
     [("process_sample", "classes/kautz_filter.py")])

# ---------------------------------------------------------------- spectral
prop("S01", "Spectral scalings are mutually consistent",
     "For the same window and length, amplitude spectra are the square roots of power spectra, and density scalings differ from spectrum scalings by exactly the "
     "equivalent noise bandwidth; one-sided spectra double every bin except 0 Hz and (for even lengths) Nyquist.",
     ["inputs", "configurations"], "all windows, lengths, sampling rates and scalings", "Tests try one window.",
     ["standard/enums.py", "standard/_spectral_methods.py", "helpers/spectrum_utilities.py"],
     [("SpectrumScaling.get_scaling_factor", "standard/enums.py"), ("_welch", "standard/_spectral_methods.py")])

prop("S02", "The cross-spectral matrix is Hermitian with the auto-spectra on its diagonal",
     "For every frequency the cross-spectral matrix equals its conjugate transpose, its diagonal is real and equals the spectrum of each channel in the chosen scaling (its squared magnitude for the FFT normalisations), "
     "and its frequency vector has one entry per row.",
     ["inputs", "configurations"], "all channel counts, lengths, methods and scalings", "Tests check shape only.",
     ["standard/_spectral_methods.py", "classes/signal.py"], [("_csm_welch/_csm_fft", "standard/_spectral_methods.py")])

prop("S03", "Transfer-function estimates implement their definitions",
     "Direct deconvolution divides output by input spectra bin by bin; H1, H2 and H3 estimators and the coherence equal the corresponding quotients of the averaged auto- and cross-spectra, per channel. "
     "Averaging impulse responses yields their (energy-weighted when asked) mean.",
     ["inputs", "configurations"], "all inputs, channels, estimators", "Tests run each estimator once.",
     ["transfer_functions/transfer_functions.py", "transfer_functions/_transfer_functions.py"],
     [("compute_transfer_function", "transfer_functions/transfer_functions.py"), ("_spectral_deconvolve", "transfer_functions/_transfer_functions.py")])

prop("S04", "Impulse-response windowing only scales samples by the stored window",
     "Windowing an impulse response multiplies every sample by a window value between zero and one that is stored with the result, with the total length requested; "
     "samples where the window is one are unchanged. The stored window always has the shape of the samples.",
     ["inputs"], "all lengths, offsets and windows", "Tests use one impulse response.",
     ["transfer_functions/transfer_functions.py", "transfer_functions/_transfer_functions.py", "classes/impulse_response.py"],
     [("window_ir / window_centered_ir / window_ir_tukey", "transfer_functions/transfer_functions.py")])

prop("S05", "Transforms and their inverses agree",
     "Complex cepstrum and its inverse, the short-time Fourier transform and its inverse, and the analytic signal (whose real part is the signal and whose spectrum has no "
     "negative frequencies) are consistent; mid/side encoding and similar linear transforms are exactly invertible.",
     ["inputs"], "all signals and parameters", "Tests use one signal.",
     ["transforms/transforms.py"], [("hilbert, cepstrum, istft", "transforms/transforms.py")])

prop("S06", "Smoothing preserves constants and stays inside the data range",
     "Fractional-octave and time smoothing return as many values as they were given, leave a constant input unchanged and never leave the range of the input; "
     "phase wrapping returns values in one period that differ from the input by multiples of 2*pi.",
     ["inputs"], "all lengths, bandwidths and contents", "Tests check one curve.",
     ["helpers/smoothing.py", "tools.py", "helpers/spectrum_utilities.py"],
     [("_fractional_octave_smoothing, _time_smoothing", "helpers/smoothing.py"), ("_wrap_phase", "helpers/spectrum_utilities.py")])

# ---------------------------------------------------------------- others
prop("G01", "Generators deliver the requested length, channels and level",
     "Every generated signal has exactly the requested duration in samples (plus trailing zeros when padding), the requested number of channels and sampling rate, and the "
     "requested peak level (which a fade may only lower); a unit impulse is one at the requested delay and zero elsewhere; tones follow their frequency.",
     ["inputs", "configurations"], "all durations, sampling rates, levels, channel counts", "Tests use one or two settings.",
     ["generators/generators.py"], [("noise, dirac, chirp, harmonic, oscillator", "generators/generators.py")])

prop("E01", "Effects follow their static characteristic",
     "Without attack and release times, the compressor maps every sample by a static curve: the identity on one side of the knee, the requested ratio on the other, continuous, monotone and finite "
     "everywhere; compressed and clean signal are mixed as requested between the gains before and after. Each distortion applies its own curve to the signal relative to its peak, mixes with the "
     "clean signal (or other distortions) in the requested proportion and keeps the peak level. A tremolo scales every sample by one plus depth times the modulator. Low-frequency oscillators have the "
     "requested length, follow their frequency and stay within one.",
     ["inputs"], "all thresholds, ratios, knees, levels", "Tests only run the effects.",
     ["effects/_effects.py", "effects/effects.py"], [("_get_knee_func, _compressor, LFO", "effects/_effects.py"), ("Compressor, Distortion, Tremolo", "effects/effects.py")])

prop("R01", "Room-acoustic quantities equal their defining formulas",
     "Sabine reverberation time and absorption, Schroeder frequency, critical distance, modal density, mixing time, wall absorption and shoebox eigenfrequencies equal their defining formulas; impossible rooms are refused; a point "
     "is in the room exactly when all coordinates lie between zero and the dimensions; a synthetic response is the sum over the image sources damped by the walls they were reflected at; clarity, definition and "
     "centre time equal their energy ratios per channel and band; the start of a response is the last sample before the peak below the threshold; convolving a signal with a response keeps length and peak level on request; "
     "the reverberation time of an exponential decay is its decay time.",
     ["inputs"], "all dimensions, absorptions and impulse responses", "Tests use one room.",
     ["room_acoustics/_room_acoustics.py", "room_acoustics/room_acoustics.py"],
     [("Room, ShoeboxRoom, _generate_rir", "room_acoustics/_room_acoustics.py"), ("descriptors, find_ir_start, convolve_rir_on_signal, reverb_time", "room_acoustics/room_acoustics.py")])

prop("B01", "Beamforming geometry: distances, focusing and grids",
     "Distances from grid points to microphones are Euclidean, coordinates are kept as (x, y, z) per point, regular grids enumerate every combination of the given lines exactly once, and reconstructing a map puts each value at its grid "
     "point; steering vectors equal their formulation for those distances; a point source reaches every microphone delayed and attenuated by its distance, mixing sources is summation and changes neither the list nor the sources; beamformer "
     "maps and outputs equal their expressions of cross-spectra and steering vectors.",
     ["inputs"], "all geometries", "Tests use one array.",
     ["beamforming/beamforming.py", "beamforming/_beamforming.py"], [("Grid, MicArray, SteeringVector", "beamforming/beamforming.py"), ("MonopoleSource, mix_sources_on_array", "beamforming/beamforming.py")])

prop("D01", "Distance measures obey their defining invariances",
     "Each distance is zero for identical signals and computed per channel; signal-to-noise ratio equals the level difference; the scale-invariant distortion ratio does not change when the estimate is scaled; "
     "spectral distances equal their defining integrals over the requested range, are not negative, and leave the settings of the passed signals alone.",
     ["inputs"], "all signals", "Tests use one pair.",
     ["distances/distances.py", "distances/_distances.py"], [("snr, si_sdr, log_spectral", "distances/distances.py")])

prop("M01", "Sample-format conversion and small tools keep values",
     "Converting between floating-point and integer sample representations maps full scale to full scale and keeps order and sign; samples survive the way there and back (as arrays or bytes) within a step; "
     "nearest-power-of-two, logarithmic and auditory frequency vectors, interpolated values and logarithmic means follow their definitions; fractional-octave bands are geometric.",
     ["inputs"], "all values", "Tests use one array.",
     ["tools.py", "helpers/other.py", "helpers/bytes_conversion.py"], [("convert_sample_representation", "tools.py"), ("_get_next_power_2", "helpers/other.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
