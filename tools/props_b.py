"""Property definitions, part B (converter models, time interleaving, signal generation, oversampling)."""
from props_a import P

TI = ["timeinterleave/deinterleave.py", "timeinterleave/extract_mismatch_sine.py", "timeinterleave/calibrate_foreground.py", "timeinterleave/predict_spurs.py", "timeinterleave/fractional_delay.py"]
PROPS = [
    P("C16", "The SAR model decides every bit correctly and reconstructs within one LSB",
      "Each bit decision of the successive-approximation model compares the input with the level of the bits already kept plus the trial weight, for any weights, input shape and range, and reconstruction returns the range times the weights of the set bits. "
      "With ideal weights the reconstruction lies within one LSB below the input and is monotone, inputs beyond the range saturate, and codes do not change when input and range are scaled together. "
      "Sampled noise is Gaussian with the given rms, drawn once per sample, comparator noise is drawn afresh for each decision, and equal random states give equal codes.",
      ["inputs", "configurations"], "every weight set, number of bits, input shape and value (inside, at the ends of and beyond the range), range and noise level",
      "tests convert a few ramps and scalars; statistics of the two noise sources, arbitrary ranges and weight sets are not related to a reference",
      ["models/sar.py"], [("bit trials", "models/sar.py"), ("reconstruction", "models/sar.py")], ["returned codes and reconstructed voltages"],
      "Decisions closer to the threshold than rounding allows are not judged; statistics use at least six standard errors.",
      "reference-model monitor (independent bit-trial model) plus statistical monitors"),
    P("C17", "Ideal SAR weights span unity and mismatch follows its statistical law",
      "Ideal weights are binary, most significant first, and together with one LSB add up to one, also when one bit is repeated for redundancy. "
      "Capacitor mismatch perturbs each weight with a relative spread inversely proportional to the square root of its number of units, plain mismatch with the same relative spread for all; errors of different bits are independent, have zero mean, scale with sigma and vanish for zero sigma, and the caller's weights are left alone.",
      ["inputs", "configurations"], "every bit count, redundancy position, weight set, sigma and unit count",
      "tests check one seed for plausibility; a law over many draws is not a unit test",
      ["models/sar.py"], [("ideal weights", "models/sar.py"), ("mismatch draws", "models/sar.py")], ["returned weights over many draws"],
      "Statistical bounds of at least six standard errors over many draws.", "statistical monitor over repeated draws"),
    P("C18", "Interleaved records split, recombine and reveal each channel's mismatch",
      "Splitting an interleaved record puts sample n into channel n modulo the number of channels and recombining restores the record exactly. "
      "From a sine record whose channels have known offset, gain and sampling skew, the extraction returns those per-channel values (gain relative to the mean, skew relative to the mean, in seconds) for every tone frequency in the band, rotates the channels when the record starts later, and follows a change of units.",
      ["inputs", "configurations"], "every number of channels, record length, rate, tone frequency, offset, gain and skew, with and without the frequency given",
      "tests use 2 or 4 channels with one tone in the first zone of a channel",
      TI[:2], [("split", "timeinterleave/deinterleave.py"), ("per-channel fit", "timeinterleave/extract_mismatch_sine.py")], ["returned channel array and mismatch dictionary"],
      "Bounds from the injected noise; tones whose channel alias is DC or half the channel rate do not determine gain and skew and are left out.",
      "reference-model monitor with synthesised interleaved records"),
    P("C19", "Predicted interleaving spurs match the spectrum and calibration removes mismatch",
      "The spurs predicted from a set of channel mismatches have the frequencies and amplitudes found in the spectrum of a record built with those mismatches. "
      "Foreground calibration with the known mismatch returns the record that an ideal converter would have produced, for one or several tones within the range the method covers, changes nothing when there is no mismatch, and refuses inconsistent parameters.",
      ["inputs", "configurations"], "every number of channels, mismatch, tone set and correction method",
      "tests check that the largest spur drops by some decibels for one configuration",
      TI, [("spur prediction", "timeinterleave/predict_spurs.py"), ("correction", "timeinterleave/calibrate_foreground.py"), ("delay filters", "timeinterleave/fractional_delay.py")], ["predicted spur list, calibrated record"],
      "Skew correction is exact only below half the channel rate, as the package documents; two-sided offset indices at one folded frequency are added before comparison.",
      "reference-model monitor with synthesised records, end-to-end re-extraction"),
    P("C20", "Fractional delay shifts a record by exactly the requested time",
      "The Fourier delay shifts a band-limited periodic record of odd or even length by exactly the requested time, keeps its energy, composes, and equals rotation for whole samples. "
      "The polynomial-filter delay is exact away from the ends for polynomials of degree below its tap count and shifts by whole samples exactly; both are linear, treat positive delay as later, and refuse unsuitable arguments.",
      ["inputs", "configurations"], "every record length, delay of either sign (fraction, whole, several samples), rate and tap count",
      "tests delay one or two sines by a small positive fraction",
      ["timeinterleave/fractional_delay.py"], [("Fourier delay", "timeinterleave/fractional_delay.py"), ("polynomial filter", "timeinterleave/fractional_delay.py")], ["returned record"],
      "The half-rate component of even records is kept out of fractional shifts because its delay is not defined.",
      "metamorphic and reference-model monitor (analytic delayed signals)"),
    P("C21", "Generated test signals contain exactly the requested impairment",
      "Each impairment of the test-signal generator follows its law: noise, jitter, glitches and envelope noise have the requested strength, quantisation floors to the requested levels, static and requested-harmonic distortion act about the offset with the requested coefficients or levels, and settling, memory, reference, residue-gain and noise-shaping errors obey their recursions. "
      "Zero strength changes nothing, leaving the input out means the clean tone, the caller's record is never altered, and equal random seeds give equal records.",
      ["inputs", "configurations"], "every length, rate, tone, amplitude, offset, impairment strength and input record",
      "tests mainly check shapes and that output differs from input",
      ["siggen/nonidealities.py"], [("impairment appliers", "siggen/nonidealities.py")], ["returned record"],
      "Random impairments are judged by statistics with at least six standard errors, not by a particular random stream.",
      "reference-model monitor (independent recursions) and statistical monitors"),
    P("C22", "Band extraction passes the chosen bands exactly and removes everything else",
      "Extracting frequency bands returns the record's components whose bins lie in the requested bands, unchanged in amplitude and phase, and nothing else, for odd and even lengths and including DC and the top of the band. "
      "Adjoining bands add up to the record, extraction twice equals once, columns are treated separately, and impossible bands or complex data are refused.",
      ["inputs", "configurations"], "every record length, number of columns, orientation and set of bands",
      "tests use one even-length record with a band in the middle",
      ["spectrum/extract_freq_components.py", "oversampling/ifilter.py"], [("bin mask", "spectrum/extract_freq_components.py")], ["returned record"],
      "Band edges that fall exactly between two bins are not used, since either rounding is acceptable.",
      "conservation and metamorphic monitor"),
    P("C23", "Performance versus oversampling ratio counts exactly the in-band error",
      "For each requested oversampling ratio the reported SNDR and SFDR compare the tone with the summed and the largest error component inside the correspondingly narrowed band, in the order in which ratios were given, and ENOB follows from SNDR. "
      "Narrowing the band never lowers SNDR, white noise improves by the ratio in decibels, repeated or reordered ratios and plotting change nothing, and unusable settings are refused.",
      ["inputs", "configurations"], "every record, noise shape, list of ratios and display option",
      "tests check monotonicity on one record and argument errors",
      ["spectrum/sweep_performance_vs_osr.py", "oversampling/perfosr.py", "spectrum/_bin_ranges.py"], [("cumulative error", "spectrum/sweep_performance_vs_osr.py"), ("band edge", "spectrum/_bin_ranges.py")], ["returned arrays, plotted curves"],
      "A known 3 dB constant in the absolute level is printed as a known finding; everything else is judged.",
      "reference-model and metamorphic monitor"),
    P("C24", "Noise-shaping suppression equals the integral of the transfer function",
      "The reported in-band suppression of a noise transfer function equals the inverse of its mean squared magnitude over the band relative to the full band, for coefficient or transfer-function form and any band. "
      "Bands add up, a gain shifts the result by that gain in decibels, and plotting or the compatibility entry point changes nothing.",
      ["inputs", "configurations"], "every stable transfer function and every band",
      "tests evaluate first- and second-order examples with loose bounds",
      ["oversampling/ntf_analyzer.py", "oversampling/ntfperf.py"], [("band integral", "oversampling/ntf_analyzer.py")], ["returned suppression in dB"],
      "Numerical integration on an independent grid; bounds from the package's frequency resolution.",
      "reference-model monitor (independent integration)"),
]
