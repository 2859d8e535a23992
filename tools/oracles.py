# What each check compares against, for DESIGN.md: (oracle, cost in seconds quick / thorough)
ORACLE = {
"P01": "`conc`: Wing-Gong linearizability of every schedule against an atomic register of the clamped value, with happens-before race detection; `seq`: every history of writes (19 values including NaN, infinities and denormals) against the clamped last write.",
"P02": "closed-form linear maps, monotonicity between neighbouring grid points and exact round trips, plus a table of degenerate ranges.",
"P03": "composition: parse(format(v)) is compared with v within half a unit of the displayed precision; lists against their definition; all strings of up to three (four) pieces from a 29-piece alphabet must give an error or a value in 0..1.",
"P04": "`conc`: linearizability against an ordered map, batches as one operation; `seq`: the same ordered map after every step, by ID, by index and as a listing.",
"P05": "`conc`/`seq`: an allocator model (used IDs, reserved ranges, names); every state compares all lookups.",
"P06": "an ideal-ramp monitor (monotone towards the target, no overshoot, arrival within the promised number of samples, finished afterwards), and a reference smoother sample by sample.",
"P07": "a record of the last declaration of each attribute.",
"P10": "a stream writer and a value map written independently of the package; after each load every parameter's bits and the custom bytes are compared. `conc`: the saved bytes of every schedule are decoded and checked for completeness.",
"P11": "monitor: error returned, parameters before/after, values in 0..1, no panic, for every fault of the enumeration (every cut, every failing byte, every single-byte change).",
"P15": "a sorted list; every query over every pair of offsets after each step; the partition of a block sequence must deliver the whole list once.",
"P16": "linearizability against the list of P15 over all schedules, race detection on each.",
"P17": "12-tone equal temperament in float64, round trips, and a table of names.",
"P20": "a stable-sorted list of changes and events with the point in time each must apply; transport arithmetic in closed form.",
"P21": "a list of declared buses rebuilt independently from the calls.",
"P22": "the sequence of callbacks with the identity of each buffer, derived from the declared lists.",
"P23": "a state machine of the lifecycle recording every callback; a direct reimplementation of the ID derivation; pairwise distinctness of all derived IDs.",
"P24": "byte-for-byte images of every channel (guard values around them), zero allocations.",
"P25": "a reference allocator (modes, stealing, pedal, limits), explored breadth-first with the model state and every voice's observable state as the visited key, to a fixpoint for most configurations.",
"P30": "float64 formulas for each arithmetic helper, guard values around all buffers.",
"P31": "the panning laws in closed form, symmetry and continuity between neighbouring grid points; an LFO model for auto-pan.",
"P32": "interpolation polynomials and the windowed sinc in float64; exact hits at integer positions; a delay model for the all-pass.",
"P33": "the complete history of written samples; every read is compared with the interpolated history, 17 delays after each step.",
"P34": "segment formulas in float64 from the documented curve, re-evaluated at every sample.",
"P35": "windowed sums recomputed from the whole history, peak and hold from their definition.",
"P36": "static curve in closed form and a reference ballistics; monitors for no boost and no fall.",
"P37": "reference state machines for hold, attack and release with the range; monitors for never above unity.",
"P38": "monitor: |out| <= ceiling for every sample of every history (after the warm-up the latency defines), and the reference gain path.",
"P39": "the transfer function evaluated at nine frequencies for each design; a float64 reference difference equation over all histories.",
"P40": "exact phase in float64 (44 runs of a million samples), closed-form waveforms, spectra of the band-limited ones by direct DFT.",
"P41": "closed-form waveforms at the exact phase; tremolo and ring modulation as products with it.",
"P42": "reference implementations in float64 from the documented signal flow, sample by sample; phase response of the all-pass stages in closed form.",
"P43": "reference networks (comb, all-pass, Freeverb, Schroeder, FDN) sample by sample; energy decay over 504 (4,000) settings.",
"P44": "chains of marker processors whose results do not commute, composed directly; adapters against the processors they wrap.",
"P45": "twin generators over all histories (same seed, same samples); exact second-order statistics over enumerated seeds compared with the colour's autocorrelation; bounds by feeding all short sequences of extreme random values.",
"P46": "closed-form curves and a float64 difference equation.",
"P47": "closed-form curves per sample; hold and quantiser models; distribution of dither checked over an enumerated run of its generator.",
"P48": "closed-form tube curve and envelope models; for tape, interval bounds per sample because hiss and flutter are random by design; monotonicity over a grid.",
"P50": "reference counts per instance, answers to all interfaces, single destruction, leak and double-free tracking by wrapped allocation.",
"P51": "a model of the factory and UTF-8/UTF-16 truncation rules; every one-bit change of the class and interface IDs must be refused.",
"P52": "the stub host's own record of what it passed (buffers, transport, flags) against what the plugin's callback saw, and guard bands around all buffers.",
"P53": "per-sample parameter values and event deliveries computed from the block's definition, against what the plugin saw at each sample; zero allocations.",
"P54": "a model stream (piece size, seek ability, fault position) and the state format of P10.",
"P55": "the plugin's registry read directly, UTF-16 conversion written independently, on every history of edits through both views.",
"P56": "counters in every callback against a lifecycle model with failures and panics as choices.",
"P57": "the declared bus list.",
"P58": "the defining sum of the DFT in float64 for unit impulses (which decide a linear map), Parseval and inverse round trip; correlation by its definition.",
"P59": "the average of the last spectra recomputed from all samples ever fed.",
"P60": "the whole history of samples (peak, hold, windowed mean square recomputed).",
"P61": "the recommendation's own filter coefficients and gating in float64.",
"P62": "formulas over the history of sample pairs; angles of synthetic geometry.",
"P63": "models of the log line, flags, counters and statistics.",
"P64": "every schedule of readers and writers: linearizability (or, where documented weaker, validity of each value read), race detection.",
"P65": "the host's structures themselves, field by field.",
"P66": "`refs`: every C memory access is a scheduling point; count, use-after-free and race oracles; `host`: linearizability of host calls against a sequential component table.",
"P68": "the allocation counter of the Go runtime.",
"P69": "the same instance run alone; the race detector.",
"P71": "the same processor given the sound in one block.",
"P72": "a new processor with the same settings.",
"P74": "the same processor by buffer into buffers of its own.",
"P73": "the same processor told the last values only, or in the other order.",
"P70": "arithmetic: a finite sample minus itself is zero.",
"P67": "a stub edit handler that records begin, perform and end with values, and its own reference count.",
}
