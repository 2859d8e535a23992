PA = "pkg/framework/param/"
P("P01", "A parameter is an atomic value that never leaves 0..1",
  "Whatever any thread writes to a parameter, as a normalized or a plain value and including out-of-range, infinite and NaN inputs, every read returns a finite normalized value in 0..1. Concurrent reads and writes of one parameter behave as an atomic register: a read returns the clamped value of some write that is not yet overwritten, never a mix, without data races, and the last write wins.",
  ["schedules", "histories", "inputs"], "All interleavings of up to 4 threads reading and writing one parameter, all short write histories, all float bit patterns of a lattice.",
  "The tests set and read a few values on one goroutine; tearing, lost clamping under interleaving and NaN need all schedules and all inputs.",
  [PA+"parameter.go"], [("atomic load/store of the value's bits", PA+"parameter.go: GetValue, SetValue"), ("clamping", PA+"parameter.go: SetValue, SetPlainValue")],
  ["conc", "seq"], obs=["Parameter.GetValue", "Parameter.GetPlainValue"])
P("P02", "Normalized and plain parameter values convert back and forth exactly",
  "For every parameter range, converting a normalized value to plain and back returns it (up to rounding), both conversions are linear and never decreasing, 0 and 1 map to the range's ends and plain values outside the range clamp to 0 or 1. Setting either form reads back as the other, degenerate ranges give 0 instead of dividing by zero, and a parameter starts at its declared default, which is always reported inside 0..1.",
  ["inputs", "configurations"], "Every point of a fine grid of normalized values for a table of ranges including tiny, huge, negative and degenerate ones, plus defaults inside and outside the range.",
  "Tests convert a handful of values of single builders.",
  [PA+"parameter.go", PA+"builder.go"], [("Normalize/Denormalize", PA+"parameter.go"), ("Default, Build", PA+"builder.go")], ["seq"])
P("P03", "Displayed parameter text parses back to the value it shows",
  "For every ready-made parameter kind and formatter (gain, mix, frequency, time, ratio, Q, pan, phase, thresholds, rates, percent, notes, on/off, lists), formatting any value and parsing the text gives back that value within half a display unit, and the infinity reading keeps displaying as infinity. A list of n options reports n-1 steps and shows and parses each option and alias case-insensitively at its own position, note names parse in every enharmonic spelling, units and list aliases in every spelling the parsers list, and parsing any text at all yields an error or a normalized value in 0..1, never a panic.",
  ["inputs"], "Every point of a fine grid over each parameter's range; all lists up to 130 options; all strings built from a token alphabet up to a length.",
  "Tests parse a few hand-written strings per kind and never compose format with parse.",
  [PA+"builders.go", PA+"formatters.go", PA+"filter_types.go", PA+"parameter.go"], [("formatter/parser pairs", PA+"builders.go"), ("text conversion", PA+"formatters.go")], ["seq"])
P("P04", "The parameter registry is an ordered map with unique IDs under concurrency",
  "Parameters are listed in registration order with unique IDs; the first registration of an ID wins, later ones are ignored, lookups by ID and by index agree with the listing and unknown IDs or indexes answer nothing. Concurrent registrations and lookups are linearizable and free of data races, and a batch of registrations appears as a whole.",
  ["schedules", "histories"], "All interleavings of small programs of up to 4 threads over registration and lookup operations; all registration histories to depth 5-6.",
  "The tests register and look up from one goroutine.",
  [PA+"registry.go"], [("read-write lock around map and order", PA+"registry.go")], ["conc", "seq"])
P("P05", "Automatic parameter IDs are never handed out twice",
  "Automatically assigned IDs, explicitly chosen IDs and reserved ranges never overlap, in any order and from any number of threads; automatic registration of a new name always succeeds, registering a taken explicit ID is an error that changes nothing, and registering an existing name keeps its ID. Lookups by name, ID and index agree with the listing after every operation, concurrent operations are linearizable, and clearing starts over.",
  ["schedules", "histories"], "All interleavings of small programs of up to 3 threads; all histories of registration, reservation and clearing to depth 5-6.",
  "The tests run single fixed sequences.",
  [PA+"registry_auto.go"], [("ID counter and lock", PA+"registry_auto.go: Register, RegisterWithID, Reserve")], ["conc", "seq"])
P("P06", "Parameter smoothing always arrives, without overshoot",
  "After any history of target changes a smoother's output moves steadily from where it is towards the latest target without overshooting, reaches it exactly within the time its rate or smoothing time promises (a straight line for linear, a geometric one for logarithmic), then reports that it is finished and stays. A smoothed parameter follows its parameter's value whichever handle wrote it, and switching smoothing off and on never replays old values.",
  ["histories", "inputs"], "All histories of 3-4 target changes at chosen moments over all three kinds and many rates; all histories to depth 5-6 of writes through each handle and enabling/disabling.",
  "Tests run one ramp per kind from a fresh smoother; retargeting mid-ramp and re-enabling need histories.",
  [PA+"smoother.go"], [("SetTarget/Next", PA+"smoother.go"), ("SmoothedParameter", PA+"smoother.go")], ["seq"])
P("P07", "A parameter is exactly what its builder was told",
  "After any sequence of builder calls the built parameter has the ID, names, unit, range, step count, flags, default and text conversion those calls declare: later calls override earlier ones, marking a parameter read-only takes its automation flag away, hidden and bypass marks add to the flags already there, and a toggle is a two-state 0..1 switch that starts off. A built parameter starts at its default, and every ready-made parameter declares its documented range, default, unit and flags.",
  ["histories"], "All sequences of up to 5-6 calls over 19 builder calls; all 18 ready-made parameters.",
  "The tests build parameters in one conventional order; overriding calls and flag combinations are not touched.",
  [PA+"builder.go", PA+"builders.go"], [("builder calls", PA+"builder.go"), ("ready-made parameters", PA+"builders.go")], ["seq"])
ST = "pkg/framework/state/manager.go"
P("P10", "Saved plugin state restores every parameter and the custom data exactly",
  "Loading a saved state sets every parameter it contains bit-exactly and hands the custom data bytes unchanged to the plugin, whatever other parameters exist, however the stream delivers its bytes, and ignores parameters it does not know while leaving unmentioned ones alone; saving changes nothing and states written in the version 1 stream layout keep loading. A state saved while other threads register, change or load parameters is complete and consistent with its declared count and holds only values the parameters had.",
  ["inputs", "histories", "schedules"], "All subsets and orders of four parameters with five values each, saved and loaded into all subsets, several custom payloads and chunk sizes; all interleavings of a save with concurrent registrations, writes and loads.",
  "There are no tests for the state package.",
  [ST], [("Save/Load", ST)], ["conc", "seq"])
P("P11", "A damaged or failing state stream never corrupts parameters",
  "A state stream that is cut short, has a wrong signature, a newer version or an impossible parameter count is refused with an error, and when the fault lies before the custom data no parameter changes. Corrupt content never panics or puts a parameter outside 0..1, read and write errors and the custom hooks' errors are always reported, and a save that could not write everything never reports success.",
  ["fault_sequences", "crash_points", "inputs"], "Every cut position, every position and kind of read or write fault, and every single-byte corruption of several states.",
  "There are no tests for the state package; faults at each byte cannot be sampled by hand.",
  [ST], [("Load validation and staged apply", ST), ("error propagation", ST)], ["seq"], level="fault_enumeration",
  technique="exhaustive fault enumeration: every cut, every failing byte position of reads and writes, every single-byte corruption")
MI = "pkg/midi/"
P("P15", "The MIDI event queue delivers each event once, in time order",
  "Range queries return exactly the queued events with start <= offset < end, sorted by sample offset with simultaneous events in arrival order, so that consecutive blocks deliver each event exactly once in its own block; removing processed events drops exactly those at or before the given sample, shifting moves every kind of event without changing it, and clearing empties. Events handed out are the caller's own copies, a processor may add events while being fed, and an event buffer keeps its input and output apart.",
  ["histories", "inputs"], "All operation histories to depth 5-6 over an alphabet with colliding offsets; every range and removal point of queues of up to 40 (140) events; all arrival orders of 7-8 events over all block partitions.",
  "Tests use one queue content and one query each.",
  [MI+"queue.go"], [("stable sort and binary search", MI+"queue.go"), ("copy-out", MI+"queue.go")], ["seq"])
P("P16", "The MIDI event queue is linearizable between threads",
  "When several threads add, query, shift, remove and clear events of one queue concurrently, every call behaves as if executed alone at one instant: no event is lost, duplicated or seen out of order, and there are no data races or deadlocks.",
  ["schedules"], "All interleavings of all programs of 2-3 threads with up to 4-5 operations over an 11-operation alphabet, unbounded preemptions.",
  "TestConcurrentAccess samples a few schedules of goroutines that check only the size.",
  [MI+"queue.go"], [("queue lock", MI+"queue.go")], ["conc"])
P("P17", "MIDI numbers, names and frequencies convert consistently",
  "Note frequencies are equal-tempered to within a fraction of a cent for any tuning, rise with every note, and map back to the same note; any frequency maps to the nearest note, with out-of-range and invalid ones clamped to 0 or 127. Note names, pitch-bend normalization (strictly increasing in -1..1, exactly 0 at centre) and the type, channel, offset and text of every event are correct for all field values.",
  ["inputs"], "All 256 note numbers for several tunings, 99 detunings of each note, all pitch-bend values, all event kinds and channels.",
  "The frequency test cannot fail (its condition is contradictory) and others check five values.",
  [MI+"events.go"], [("NoteToFrequency/FrequencyToNote", MI+"events.go")], ["seq"])
FW = "pkg/framework/"
P("P20", "A block's parameter changes, events and transport reach the plugin intact",
  "Every parameter change added for a block, however many there are, is delivered until the block is reset; sorting orders them by sample offset and keeps changes at the same offset in the order the host sent them, and applying one sets exactly its parameter. The block's event queries return exactly the events inside the asked range (the whole block for 'all'), inputs and outputs stay apart, and musical position, beat phase and samples per beat agree with the tempo, time signature and position for every valid combination (also before bar zero) and read 0 when the host gave no valid data.",
  ["histories", "inputs"], "All histories to depth 4-6 of adding, sorting, applying and clearing changes and events, from empty, mid-size and nearly full lists; all time signatures, denominators, positions and validity flags of a grid.",
  "The tests add three events and never sort parameter changes or read the transport.",
  [FW+"process/context.go"], [("AddParameterChange/SortParameterChanges", FW+"process/context.go"), ("TransportInfo", FW+"process/context.go")], ["seq"])
P("P21", "Bus configurations report exactly the buses that were declared",
  "A configuration built from any sequence of builder calls, or from any template, reports exactly those buses: counts, info by media type, direction and index, channel counts, main or auxiliary kind, and active state (auxiliary audio buses start inactive, all others active), and answers nothing for other indexes. Building is refused exactly when no main output exists, an audio bus has fewer than 1 or more than 32 channels, or an unknown bus was activated; activating a bus changes only that bus, unknown buses are an error, and the active channel totals and the sidechain always agree with the list.",
  ["histories", "configurations"], "All builder histories to depth 5-6 over 15 calls, all activation histories to depth 2-3, every template with every size from -1 to 34.",
  "Tests build a few fixed configurations.",
  [FW+"bus/bus.go", FW+"bus/builder.go", FW+"bus/templates.go"], [("Configuration queries", FW+"bus/bus.go"), ("Builder.Validate", FW+"bus/builder.go")], ["seq"])
P("P22", "Multi-bus processing hands each plugin callback the right buses",
  "In a multi-bus context the main input, main output and sidechain are the first bus of that kind, buses are addressed by index with unknown indexes answering nothing, and visiting buses visits exactly the active ones in order with their own buffers and info. Main processing runs once exactly when both main buses exist and gets the sidechain or nothing, pass-through copies each input bus to the output bus of the same index channel by channel, and clearing zeroes every output and nothing else.",
  ["configurations"], "Every pair of lists of up to 2-3 input and output buses over kind, activity and 0-2 channels.",
  "There are no tests for the multi-bus context.",
  [FW+"process/multibus.go"], [("bus selection", FW+"process/multibus.go")], ["seq"])
P("P23", "A plugin's identity is stable and its lifecycle callbacks fire in order",
  "A plugin's 16-byte class ID depends only on its string ID, never changes between versions, is a valid version 4 UUID (apart from the three fixed example IDs), and differs between plugins; an empty ID is invalid. Initialization stores the sample rate before the plugin's callback sees it, deactivation resets before it notifies, activation does not reset, callback errors reach the host, and processors share neither buses nor parameters.",
  ["inputs", "histories"], "All strings of up to 4-5 tokens from a 10-token alphabet and all near-misses of the fixed IDs; all histories to depth 5-6 of setting callbacks, initializing and (de)activating.",
  "Tests compare four IDs; there are no tests for the processor.",
  [FW+"plugin/info.go", FW+"plugin/base.go", FW+"plugin/processor.go"], [("UID", FW+"plugin/info.go"), ("SetActive/Initialize", FW+"plugin/processor.go")], ["seq"])
P("P24", "Block buffer helpers touch exactly the buffers they promise",
  "For any number of input and output channels and any block size up to the declared maximum, in place or not, the context's pass-through, clear and per-channel, stereo, mono, per-sample and separate-function helpers visit exactly the channels both sides have (at most two for stereo, one for mono) and every sample once, in order, with the matching buffers. They write nothing else and allocate nothing, and the work and temp buffers always have the block's length and never overlap.",
  ["configurations"], "Every combination of 0-4 (thorough 0-6) input and output channels, five block sizes, in place and separate, for every helper; clearing beside shorter inputs; up to 130 channels.",
  "There are no tests for these helpers.",
  [FW+"process/helpers.go", FW+"process/context.go"], [("channel helpers", FW+"process/helpers.go")], ["seq"])
P("P25", "The voice allocator never sticks, loses or cuts a note wrongly",
  "In any order of note, velocity-zero, pedal, limit, mode and reset events, with voices that fade or die on their own, a voice stays held only while its key is down or the sustain pedal holds it, a note event only affects voices of that note, and a pressed key always sounds at its velocity unless stealing is off and all voices are busy. A polyphonic note retriggers its own voice, else takes a free one, else steals exactly the oldest, quietest, highest or lowest as configured; mono and legato use one voice (legato does not retrigger while a key is held), unison uses all, and no voice beyond the limit ever sounds.",
  ["histories"], "All reachable states (breadth-first with state matching, usually to a fixpoint) of allocators with 1-3 (thorough 4) voices, 3-5 notes, all modes, stealing policies, pedal, natural decay, limits and resets.",
  "The tests play two or three notes; stuck notes and wrong cuts need combinations of pedal, stealing, decay and re-press.",
  [FW+"voice/allocator.go"], [("note to voice mapping", FW+"voice/allocator.go: noteToVoice"), ("sustain", FW+"voice/allocator.go: SetSustainPedal"), ("stealing", FW+"voice/allocator.go: stealVoice")], ["seq"],
  technique="explicit-state model checking of the real allocator: breadth-first search over all reachable states with state matching, a monitor checking every transition")
D = "pkg/dsp/"
P("P30", "Buffer, gain and mix arithmetic is exact for every length and value",
  "Every buffer operation (clear, copy, add, scale, mix, crossfade, sum, fade, clip, gain) computes its textbook result for each sample up to the shortest buffer involved, also in place, and never reads or writes outside its buffers. Decibel and linear conversions are inverse, never decreasing and bottom out at -200 dB, peak and RMS are those of the samples, crossfades keep equal power or equal sum, and clipping is odd-symmetric, leaves samples up to the threshold alone, never exceeds its limit and never falls as the input rises.",
  ["inputs", "configurations"], "All buffer lengths to 72 (thorough 300), all combinations of unequal lengths, aliased and separate buffers, dense value grids.",
  "Tests use one buffer of four samples of equal length.",
  [D+"buffer.go", D+"gain/gain.go", D+"mix/mix.go"], [("length handling", D+"mix/mix.go"), ("dB conversion", D+"gain/gain.go")], ["seq"])
P("P31", "Panning is symmetric, continuous and keeps each law's level",
  "For every pan position from -1 to 1 the left and right gains stay in 0..1, mirror each other, move steadily and without jumps from hard left to hard right, and follow their law (linear sum 1, constant power 1, balanced -4.5 dB in the centre with full level at the sides). Stereo panning and balance pass the centre unchanged and attenuate continuously and only the opposite side, width keeps the mid signal and scales the side signal, all functions work in place and for unequal lengths, and the auto-panner follows its sine for any rate and depth changes and block sizes.",
  ["inputs", "histories"], "4001 (thorough 40001) pan positions per law, all buffer length combinations, all auto-pan histories to depth 4-5.",
  "Tests probe three positions per law; the right constant-power test fails on the pinned commit.",
  [D+"pan/pan.go"], [("pan laws", D+"pan/pan.go"), ("AutoPan phase", D+"pan/pan.go: AutoPan.Process")], ["seq"])
P("P32", "Interpolation and resampling hit the samples and their reference curves",
  "Linear, cubic and Hermite interpolation pass through the samples and follow their polynomials, windowed sinc and Lanczos return the sample itself at integer positions and treat samples outside the buffer as silence for every position and window, and the all-pass interpolator has unit gain and delays by exactly its fraction. Resampling by any ratio writes exactly the number of samples it reports, each interpolated at its position, and never touches the rest or reads outside the buffer.",
  ["inputs", "histories"], "All 4-sample neighbourhoods over a 5-value alphabet and 33-129 fractions, all buffer lengths, positions, windows and ratios of a grid, all all-pass histories to depth 4-6.",
  "There are no tests for the package.",
  [D+"interpolation/interpolation.go"], [("kernels and resamplers", D+"interpolation/interpolation.go")], ["seq"])
P("P33", "Delay lines return exactly the sample written that long ago",
  "Reading a delay line at any delay from 1 sample to its length, whole or fractional, in samples or milliseconds, returns the (linearly interpolated) sample written that long ago, whatever was written, read, wrapped or reset before; delays outside that range, including NaN, read the nearest valid one and never panic. Comb, all-pass, multi-tap and modulated delays follow their recurrences sample by sample for every history of inputs and settings, taps sound after exactly their delay, buffer and single-sample processing agree, and a reset leaves no trace of the past.",
  ["histories", "inputs"], "All histories to depth 4-7 of writes, reads, block processing, parameter changes and resets on lines of 1-13 samples, with 17 delays read back after every step.",
  "There are no tests for the package.",
  [D+"delay/delay.go"], [("circular buffer", D+"delay/delay.go: Line.Read, Line.Write"), ("feedback structures", D+"delay/delay.go")], ["seq"])
P("P34", "Envelope generators follow their curve through any sequence of note events",
  "After any sequence of triggers, releases, resets, parameter changes and processing, an ADSR envelope rises exponentially to 1, falls to the current sustain level, stays there while held, and after a release falls to exactly 0 and becomes inactive; it starts each segment from its current value, stays within 0..1 and never gets stuck. AR envelopes and followers follow their attack and release exponentials the same way, and block, multiply and single-sample processing agree.",
  ["histories"], "All histories to depth 4-6 over 15 operations at two sample rates and four settings, each sample against a reference.",
  "There are no tests for ADSR, AR or the follower.",
  [D+"envelope/envelope.go"], [("ADSR stages", D+"envelope/envelope.go: ADSR.Next")], ["seq"])
P("P35", "Level detectors report the true peak, held peak or RMS level",
  "For every mode, response type, setting and input history the detector rises towards a higher level with its attack and falls with its release, never overshoots or becomes NaN or negative, captures or approaches peaks as its type says, holds a peak for the hold time after the last sample at the peak, and in RMS mode follows the exact RMS of its window. Decibel readings agree with the level and bottom out at -96 dB, and block, sidechain and single-sample detection agree.",
  ["histories"], "All histories to depth 4-5 over 18 operations for every mode and response type, every sample against a reference.",
  "Tests feed one pulse and one sine.",
  [D+"envelope/detector.go"], [("Detector.Detect", D+"envelope/detector.go")], ["seq"])
P("P36", "The compressor follows its curve and never boosts or jumps",
  "For every history of inputs and settings the compressor's output is the input (delayed by exactly the lookahead) times makeup gain and the reduction its curve gives for the detected level: nothing below the knee, (level-threshold)*(1-1/ratio) above it, and a continuous, never negative transition between. Louder input never comes out quieter in the steady state, the meter shows the applied reduction, stereo and sidechain processing use one gain from the louder channel or the sidechain, blocks equal single samples, and a reset leaves no trace.",
  ["histories", "configurations"], "All histories to depth 4-5 over 25 operations; static curves of 160 settings at 300-1200 levels.",
  "Tests probe four levels with a hard knee and two points of one soft knee.",
  [D+"dynamics/compressor.go"], [("computeGain", D+"dynamics/compressor.go")], ["seq"])
P("P37", "Expander and gate attenuate only quiet signals, within their range",
  "The expander's gain is 0 dB above its knee, (level-threshold)*(ratio-1) below, continuous and monotonic between, and never positive or beyond the range, in any history of inputs and settings. The gate opens only above its threshold, stays open down to the threshold minus the hysteresis and for the hold time after that, then closes to exactly its range; gains glide with attack and release, state, open flag and meter agree with what is heard, stereo linking uses the louder (filtered) channel, and a reset leaves no trace.",
  ["histories", "configurations"], "All histories to depth 4-5 over 20-25 operations each; static expander curves of 108 settings at 300 levels.",
  "Tests walk one fixed sequence per feature.",
  [D+"dynamics/expander.go", D+"dynamics/gate.go"], [("computeGain", D+"dynamics/expander.go"), ("gate state machine", D+"dynamics/gate.go: Process")], ["seq"])
P("P38", "The limiter never lets a sample above its ceiling",
  "For every input history, threshold, release, lookahead and detection mode, no output sample exceeds the ceiling in force, each output is the input delayed by exactly the lookahead times a gain of at most 1, and signals below the ceiling pass unchanged as long as, and again after, nothing louder came. Both stereo channels get the same gain, blocks equal single samples, and a reset leaves no trace.",
  ["histories"], "All histories to depth 4-6 over 13 operations for six combinations of detection mode and lookahead, each sample against a monitor and a reference.",
  "Tests hold one level for 100 samples and allow half a dB over the ceiling.",
  [D+"dynamics/limiter.go"], [("gain computation", D+"dynamics/limiter.go: Process")], ["seq"])
P("P39", "Filters have the frequency response they are named for, in any history",
  "Every biquad design (low-, high-, bandpass, notch, allpass, peaking, shelves) and every state-variable output has, for any sample rate, frequency below Nyquist, Q and gain, the frequency response of the bilinear transform of its analog prototype and rings out. In any history of blocks, designs and resets each channel's output depends on its own input alone, however it is cut into blocks, a reset leaves no trace, extra channels are left alone, and the morphing filter moves continuously from lowpass through bandpass, highpass and notch back to lowpass.",
  ["histories", "configurations"], "All histories to depth 4-5 over 16-21 operations against a reference; responses of 1,500-15,000 designs at nine frequencies.",
  "There are no tests for the filters.",
  [D+"filter/biquad.go", D+"filter/svf.go"], [("designs and difference equation", D+"filter/biquad.go"), ("ProcessSample, morphing", D+"filter/svf.go")], ["seq"])
P("P40", "Oscillators keep exact pitch and phase, and the band-limited ones do not alias",
  "Through any history of frequencies (negative, zero and above the sample rate included), phases, resets and waveforms, each sample is the waveform's value at the phase that frequency and time imply, so long runs do not drift and no waveform leaves -1..1. The band-limited impulse train is at every moment the normalized sum of all harmonics below the Nyquist frequency; the band-limited sawtooth has a sawtooth's harmonics and nothing between them, and stays bounded when the frequency changes.",
  ["histories", "configurations"], "All histories to depth 4-5 over 25 operations; 44 long runs; all histories to depth 3-4 of impulse trains; spectra of 25 sawtooth pitches.",
  "There are no tests for the oscillators.",
  [D+"oscillator/oscillator.go"], [("phase update", D+"oscillator/oscillator.go: updatePhase"), ("BLIT closed form, integrator", D+"oscillator/oscillator.go")], ["seq"])
P("P41", "LFOs, tremolo and ring modulation follow their waveform through any history",
  "In any history of settings, syncs, resets and processing an LFO gives, sample by sample, its waveform at the phase that frequency and time imply, scaled, offset and clamped to -1..1; the random waveform holds each new value for one period. The tremolo multiplies by the gain this implies, between 1-depth and 1, with the right channel ahead by exactly the stereo phase whenever it was set, and reports the gain it applies; the ring modulator multiplies both channels by one carrier, which runs at its own frequency again when its vibrato is switched off.",
  ["histories"], "All histories to depth 3-5 over 15-24 operations per effect, every sample against a reference.",
  "Tests run one setting per feature from a fresh effect.",
  [D+"modulation/lfo.go", D+"modulation/tremolo.go", D+"modulation/ringmod.go"], [("LFO.Process", D+"modulation/lfo.go"), ("gain and stereo phase", D+"modulation/tremolo.go"), ("carrier", D+"modulation/ringmod.go")], ["seq"])
P("P42", "Chorus, flanger and phaser process what their settings say, in any order",
  "In any history of settings, resets and audio the output is the dry signal plus, by the mix, voices delayed by exactly delay + depth times their LFO (chorus, flanger) or turned by the phaser's all-pass stages swept between its frequency limits, with the feedback asked for; settings mean the same in whichever order they are made and are limited to their documented ranges. A still phaser shifts its centre frequency by a quarter cycle per stage and passes all frequencies at full level; blocks equal single samples, and a reset behaves like a new effect.",
  ["histories", "configurations"], "All histories to depth 4-5 over 21-27 operations per effect, every sample against a reference; phase responses of 48 phasers.",
  "Tests set one parameter at a time and probe coarse features.",
  [D+"modulation/chorus.go", D+"modulation/flanger.go", D+"modulation/phaser.go"], [("delay modulation", D+"modulation/chorus.go, flanger.go"), ("all-pass cascade", D+"modulation/phaser.go")], ["seq"])
P("P43", "Reverbs are stable, decay as set, freeze for good and forget on reset",
  "For every setting a reverb stays bounded under full-scale input and its tail decays at least as fast as its feedback implies, a larger room or decay never shortens it, and damping removes highs from the loop only. In any history of settings, presets, resets and audio the output is that of the documented comb, all-pass or feedback-delay network: dry signal by the dry level plus the network's output by the wet level, in mono and stereo alike; a frozen Freeverb sustains for ever and takes no new input, and a reset leaves silence.",
  ["histories", "configurations"], "All histories to depth 3-5 over 18-25 operations per reverb against reference networks; 500-4,000 settings driven at full scale and left to decay.",
  "Tests run one impulse at one setting; the eight-line network diverged and stereo could index before the buffer only after it wrapped.",
  [D+"reverb/fdn.go", D+"reverb/freeverb.go", D+"reverb/schroeder.go"], [("feedback network", D+"reverb/fdn.go"), ("comb and all-pass banks", D+"reverb/freeverb.go, schroeder.go")], ["seq"])
P("P44", "Chains run their processors in order, parallel chains mix exactly",
  "In any history of adding stages and nested chains, processing blocks of any length, bypassing and resetting, a chain's output is its processors applied in the order added, and a parallel chain's the sum of its chains' outputs for the same input, each by its gain; a bypassed chain leaves the audio and its processors' state alone, and a reset reaches every nested processor once. Builders give exactly the chain described or, if anything was nil or nothing was added, an error and no chain. An adapter is sample for sample the adapted processor, the ready-made chains have the documented settings, and steady processing allocates nothing.",
  ["histories", "configurations"], "All histories to depth 4-6 over 15 operations for chains and parallel chains, 5-7 for stereo; all builder call sequences to length 6-8; all block and reset histories to depth 4-5 of 14 adapters.",
  "The tests run one or two stages once; composition with nesting, bypass and reset in between needs histories.",
  [FW+"dsp/chain.go", FW+"dsp/adapters.go"], [("chains", FW+"dsp/chain.go: Process"), ("adapters", FW+"dsp/adapters.go")], ["seq"])
P("P45", "Noise is reproducible, bounded and of the colour it is called",
  "Whatever a generator did before, after SetSeed its output depends on the seed and the calls since alone. Every sample of every type is between -1 and 1; blue and violet noise are the first and second difference and brown noise the leaky integral of the white noise of the same seed, pink noise has no offset and loses the same correlation every octave, and Gaussian noise is normal, scaled by 0.3, and finite for every state of the random source.",
  ["histories", "inputs"], "All histories of 2-3 operations before a seed by all pairs after it; 64-1,024 enumerated seeds compared sample by sample; second-order statistics over 4,000-20,000 seeds; all sequences of 1-6 extreme random values.",
  "There are no tests of the noise generators, and offsets or a wrong slope cannot be seen in single samples.",
  [D+"utility/noise.go"], [("noise colours", D+"utility/noise.go: generatePink, generateViolet"), ("seeding", D+"utility/noise.go: SetSeed, Reset")], ["seq"])
P("P46", "DC blockers and parameter curves do exactly what they document",
  "In any history of samples, buffers, stereo and multi-channel blocks, cutoffs and resets each channel of a DC blocker is an independent one-pole high-pass, channels it does not have pass unchanged; constant input dies out within a second at every rate while sound well above the cutoff keeps its level. Scaling and unscaling of parameters are monotonic inverses hitting both ends, quantising picks the nearest step and is idempotent, and a smoother covers 1-1/e of the way per smoothing time and says it is smoothing exactly while it is away from its target.",
  ["histories", "inputs"], "All histories to depth 4-5 over 16 operations for 0-3 channels; 45 blockers by DC and tone; a grid of 257-2,049 values by all ranges, curves, skews and 40-200 step counts; all smoother histories to depth 4-5.",
  "The tests use a few values of the parameter functions and none of the DC blockers.",
  [D+"utility/dcblocker.go", D+"utility/parameter.go"], [("high-pass", D+"utility/dcblocker.go: Process"), ("curves", D+"utility/parameter.go")], ["seq"])
P("P47", "Waveshapers and bit crushers map every sample as their curve says",
  "In any history of settings, samples, blocks and stereo blocks, in place or not, the output is the documented curve of the driven input, mixed and scaled within the documented limits; every curve is bounded, never falls (but for folding) and answers at once for every input however large. The crusher keeps its two channels apart, holds values for the set factor on average, filters stably at every factor and rounds to the nearest of the steps; dither stays within one step and a half, is right on average, repeats after a reset and depends on no other instance.",
  ["histories", "inputs"], "All histories to depth 4-5 over 25-29 operations; 4,001-40,001 inputs by all curves; 121-991 reduction factors; 18 dither settings by six inputs over 20,000-100,000 samples; input grids for the helper functions.",
  "Tests check a few values in mono; hangs need huge inputs, and channel mix-ups and unstable filters need certain settings.",
  [D+"distortion/waveshaper.go", D+"distortion/bitcrusher.go"], [("curves", D+"distortion/waveshaper.go: applyCurve"), ("crusher", D+"distortion/bitcrusher.go: processChannel")], ["seq"])
P("P48", "Tube and tape saturation stay bounded, monotonic and channel-true",
  "In any history of settings, samples, blocks, stereo blocks and resets the output is that of the documented chain (emphasis, bias or compression, hysteresis or flutter, saturation, de-emphasis, mix, output), each channel with a state of its own. For every setting the transfer curve rises without jumps or sign changes, full-scale input of any kind stays bounded and silence brings it back to rest; hiss stays below the set level and flutter swings the delay by the set depth at the tape's rate in mono and stereo alike.",
  ["histories", "configurations"], "All histories to depth 4-5 over 20-22 operations (tape against interval bounds, since hiss and flutter are random); 108 settings by 2,001-20,001 inputs and seven square waves; 12 flutter measurements of 14 s.",
  "Tests compare single samples and never both channels; a dip in a transfer curve or a shared state needs a sweep or a history.",
  [D+"distortion/tube.go", D+"distortion/tape.go"], [("tube", D+"distortion/tube.go: processChannel"), ("tape", D+"distortion/tape.go: processChannel")], ["seq"])
P("P58", "The FFT is the discrete Fourier transform of its windowed input",
  "At every size Forward and ForwardComplex give the transform of the windowed input, cut or padded with zeros, whatever was transformed before, Inverse undoes it, windows are the textbook ones, and no level reads below the -120 dB floor. CrossCorrelation gives at every lag the sum of products of the two signals.",
  ["histories", "inputs"], "All unit impulses, real and imaginary, at sizes 1-64 (256) with seven windows, which decide a linear map; all histories to depth 3-4 over 12 calls with short, full and long inputs; all pairs of sequences over -1, 0, 1 up to length 4 (5), all pairs of impulses up to length 33 (80).",
  "Tests check a few tones and the position of a peak; wrong lags and state kept between calls go unseen.",
  [D+"analysis/fft.go"], [("transform", D+"analysis/fft.go: Forward, fft"), ("correlation", D+"analysis/fft.go: CrossCorrelation")], ["seq"])
P("P59", "The spectrum analyzer shows the averaged spectrum of exactly the last frames",
  "In any history of blocks, hop sizes, averaging modes, smoothing, ranges and resets the spectrum, its decibels, the part in range, octave bands, band energies and peak are those of the frames the hop size cuts from the input, however it was split into blocks. A tone in any bin, the first and the last too, is found at its frequency and level; analyzing allocates nothing.",
  ["histories", "inputs"], "All histories to depth 4-5 over 24 operations; all 33 bins at four rates with seven windows.",
  "Tests check one setting at a time with whole frames.",
  [D+"analysis/spectrum.go"], [("framing", D+"analysis/spectrum.go: Process"), ("averaging", D+"analysis/spectrum.go: applyAveraging")], ["seq"])
P("P60", "Peak and RMS meters read what the signal says, for any history",
  "The peak meter shows the highest sample decayed by the set rate whatever the block sizes, and holds the maximum for the set time after it was last reached; the held value is never below the current. The RMS meter shows the root mean square of exactly the last window, never a rounding error after loud passages, and a reset makes either like new.",
  ["histories", "inputs"], "All histories to depth 5-6 over 13 operations (peak) and 4-5 over ten (RMS, four windows); all 1,024 (8,192) ways to cut a silence by 18 settings; all sequences of 7-9 samples over four magnitudes; one run of 2 (50) million samples.",
  "Tests feed a handful of blocks; rounding that ends in NaN needs particular sequences.",
  [D+"analysis/meters.go"], [("peak", D+"analysis/meters.go: PeakMeter.Process"), ("RMS", D+"analysis/meters.go: RMSMeter.Process")], ["seq"])
P("P61", "Loudness is measured as ITU-R BS.1770 prescribes",
  "A sine in any channel of any layout reads its K-weighted, channel-weighted level in LUFS at every sample rate; momentary, short-term and integrated loudness are those of the last 400 ms, the last 3 s and the gated 400 ms blocks since the reset, however the input was cut into blocks. The loudness range of a steady programme is none and of two levels their difference; metering allocates nothing per block.",
  ["histories", "inputs"], "Four rates by nine frequencies by 12 (13) channel placements against the recommendation's coefficients; all programmes of 4 (5) segments over five levels in four block sizes; all histories to depth 4-5 over six operations.",
  "Tests only check that a value appears; gates need loud and quiet parts, weighting needs frequencies and channels.",
  [D+"analysis/meters.go"], [("K-weighting", D+"analysis/meters.go: createKWeightingPreFilter, createKWeightingHighShelf"), ("gating", D+"analysis/meters.go: GetIntegratedLUFS"), ("windows", D+"analysis/meters.go: updateBlock")], ["seq"])
P("P62", "Stereo meters and scopes agree with the signal's geometry",
  "In any history the correlation meter shows the averaged correlation of the last window and holds its minimum for the set time, balance and width follow the averaged powers up to one-sided and pure side signals, and the scopes return the newest points, oldest first, at the set scale and rotation. Their statistics tell mono from side signals by width and dominant angle, and a reset makes each like new.",
  ["histories", "inputs"], "All histories to depth 3-5 over 13-17 operations per meter; all pairs of channel gains on a grid of 11 by 11.",
  "Tests check single signals; holds, resets and wrapped angles need histories.",
  [D+"analysis/correlation.go", D+"analysis/phasescope.go"], [("correlation", D+"analysis/correlation.go: CorrelationMeter.Process"), ("scope", D+"analysis/phasescope.go: PhaseScope.Process, GetStatistics")], ["seq"])
P("P63", "Debugging tools report what really happened",
  "In any history of settings the logger writes exactly the enabled messages of at least its level, to its current output, with the flagged parts and the caller's own file and line, through the package functions too. The profiler's count, total, average, extremes, last and percentiles are those of the durations measured since the reset, results handed out never change, and buffer analysis, comparison, dump and picture report every sample of any buffer.",
  ["histories", "inputs"], "All histories to depth 3-4 over 20 logger operations and 4-5 over 11 profiler operations (three window sizes); all buffers of up to 4 (5) samples over 11 values; all pairs of up to 3 samples over five values.",
  "Tests log once per level and measure one section.",
  [FW+"debug/logger.go", FW+"debug/profiler.go", FW+"debug/audio.go"], [("logging", FW+"debug/logger.go: log"), ("percentiles", FW+"debug/profiler.go: Percentile"), ("comparison", FW+"debug/audio.go: CompareBuffers")], ["seq"])
P("P64", "Meters and debugging tools may be read while audio is processed",
  "Peak, RMS, loudness, correlation, balance, width, stereo field, phase scope, vector scope and spectrum meters, the profiler, the logger, the buffer pool and the allocation tracker behave, under every schedule of threads that process, read, set and reset them, as if each call happened at one instant. There are no data races and no deadlocks, a pooled buffer in use is never handed out again, and unexpected allocations are detected.",
  ["schedules"], "All programs of up to 4 (5) calls on up to 3 threads over 2-14 operations per tool, every schedule of each, with happens-before race detection.",
  "Tests read meters from the thread that feeds them.",
  [D+"analysis/meters.go", D+"analysis/correlation.go", D+"analysis/spectrum.go", FW+"debug/profiler.go", D+"debug/buffer_debug.go"],
  [("thread-safe access", D+"analysis/doc.go"), ("measurement copies", FW+"debug/profiler.go: GetMeasurement")], ["conc"])
P("P68", "Processing audio never allocates memory, whatever the settings and blocks",
  "Once a processor has run one block of the largest size, it processes blocks of any sizes up to that, in any order and after any setter calls, without allocating memory. (The loudness meter's list of measured blocks, which grows for as long as it measures, is excepted.)",
  ["settings of every processor, block sizes"], "Every processor, after none and after every setting (thorough: every ordered pair) out of 10-60 per processor, over blocks of 0 to 2048 samples, small after large and large after small.",
  "Allocations depend on settings and on the order of block sizes.",
  [D+"dynamics/limiter.go", D+"envelope/detector.go", FW+"dsp/chain.go", D+"analysis/meters.go"], [("grown scratch", FW+"dsp/chain.go: ParallelChain.Process"), ("RMS window", D+"envelope/detector.go: SetRMSWindow")], ["seq"])

P("P69", "Two instances of a processor never influence each other",
  "Whatever two instances, of one kind or of two, are told and given, and in whatever order or from whatever two threads their calls come, each gives exactly the output it gives alone.",
  ["interleavings of two instances", "thread schedules"], "Every two instances of every processor with every pair of settings, and every pair of processors, in all 70 orders of their four steps each, the second made before or after the first is used; under the scheduler and the race detector two threads make, set and run one each, for every pair of settings.",
  "Tests use one instance at a time.",
  [D+"modulation/chorus.go", D+"utility/noise.go", D+"oscillator/oscillator.go", D+"dynamics/gate.go"], [("own state", D+"utility/noise.go: NewNoiseGenerator"), ("own buffers", D+"modulation/chorus.go: NewChorus")], ["seq", "conc"])

P("P70", "No setting and no sound makes a processor emit NaN or infinity",
  "Every processor, whatever setter calls came before with whatever values, in range or far outside it, answers finite input with finite output at every audio sample rate from 8 kHz, and input within 1 never makes it run away. (Feedback of the bare delay lines and the Q of the bare filters have to be within their range.)",
  ["pairs of settings of every processor"], "Every processor at 8 kHz, before and after every setting and every ordered pair (thorough: triple) of settings out of 10-60 per processor (zero, negative and huge values among them), and with single settings (thorough: pairs) at 11-192 kHz, fed loud, silent, constant, alternating, denormal and overloaded blocks; then 20000 samples that must stay below 10000.",
  "Tests process with sensible settings.",
  [D+"dynamics/compressor.go", D+"modulation/chorus.go", D+"filter/svf.go"], [("clamped settings", D+"dynamics/compressor.go: SetRatio")], ["seq"])

P("P71", "How audio is divided into blocks never changes the sound",
  "Every processor, whatever its settings, gives sample for sample the same output (and the same readings) for a sound in one block and in any division into blocks, empty ones included. (Functions that fade or resample a whole buffer, and the peak, correlation, balance and width meters, which average block by block, are excepted.)",
  ["divisions into blocks, settings of every processor"], "Every processor, after none and after every setting (thorough: every ordered pair) out of 10-60: every position (thorough: every 7th) of one cut in 256 samples, blocks of 1, 2, 3, 16 and 100, and every one of the 128 (512) divisions of a short sound.",
  "Hosts choose block sizes freely and change them; tests use one size.",
  [D+"modulation/chorus.go", D+"dynamics/limiter.go", D+"reverb/fdn.go", D+"analysis/meters.go"], [("state between blocks", D+"dynamics/limiter.go: ProcessBuffer"), ("phase between blocks", D+"modulation/lfo.go: ProcessBuffer")], ["seq"])
P("P72", "Reset forgets the past and keeps the settings, in every processor",
  "After Reset every processor gives sample for sample what one that was never used and has the same settings gives, whatever it played before, and whichever of the settings were made before the sound, between the sounds or after the reset. (Noise generators are given their seed again; the random ones are excepted.)",
  ["histories of settings, sounds and a reset"], "Every processor with a Reset: every sequence of up to two settings (thorough: and an eighth of the triples) out of 10-60, the reset at every place in it, sound before and after every step.",
  "A reset that forgets one field is heard only after particular sounds and settings.",
  [D+"dynamics/gate.go", D+"modulation/phaser.go", D+"reverb/freeverb.go", D+"filter/svf.go"], [("cleared state", D+"dynamics/gate.go: Reset"), ("cleared feedback", D+"modulation/chorus.go: Reset")], ["seq"])
P("P73", "Only the last value of each setting counts, in whatever order they are made",
  "Before and while sound runs, the output of every processor depends on the last value of each setting, not on values it had meanwhile nor on the order of different settings, and setting a value again changes nothing. (Settings that share what they set count in their order; the number of voices or stages, look-ahead, RMS window and averaging start anew when set, and a closed gate takes its range at once.)",
  ["pairs of settings"], "Every processor: every ordered pair of settings out of 10-60, after none and after every eighth (thorough: every) other setting, before the sound and in the middle of it, in both orders, without the first, and with either made again later.",
  "Plugins set everything again for every block, in an order of their own.",
  [D+"dynamics/compressor.go", D+"modulation/flanger.go", D+"envelope/detector.go", D+"reverb/schroeder.go"], [("derived values", D+"envelope/detector.go: SetAttack"), ("derived values", D+"modulation/phaser.go: SetDepth")], ["seq"])

P("P74", "In place or not, by buffer or by sample, in mono or stereo: the same sound",
  "A processor gives the same output whether its outputs are buffers of their own or take the place of their inputs, whether its inputs are one buffer or several, and whether it is run by buffer, sample by sample or through any other of its methods; it changes no input that is not also its output and writes nothing beyond the block. Stereo forms of one channel each are two mono ones, and linked dynamics on equal channels are the mono ones (the stereo forms have no look-ahead).",
  ["settings", "buffer arrangements"], "71 forms of processing in every arrangement of their buffers and each of their other ways, after every setting (thorough: every ordered pair of settings, at two rates).",
  "Hosts process in place or not as they like; the tests do one of the two.",
  [D+"pan/pan.go", D+"modulation/chorus.go", D+"dynamics/gate.go", D+"delay/delay.go"], [("in place", D+"pan/pan.go: Process, Width"), ("stereo and mono paths", D+"dynamics/gate.go: ProcessStereo")], ["seq"])

PL = "pkg/plugin/"
P("P50", "A component lives exactly as long as the host holds a reference to it",
  "Through any history of queryInterface, addRef and release on any of a component's interfaces the returned counts are the references held, each interface ID gives always the same pointer and the others are refused, and calls reach the component's own plugin whatever other components exist or were released. After the last release nothing of it remains in memory.",
  ["histories"], "All histories to depth 3-4 of 27 calls over three interfaces; all release orders of three instances; 2,000 lifetimes watched for leaks.",
  "The plugin package has no tests; it is not even built without the VST3 headers.",
  ["bridge/component.c", PL+"wrapper.go"], [("reference counting", "bridge/component.c: component_addRef, component_release"), ("component registry", PL+"wrapper.go: registerComponent")], ["wrap"])
P("P51", "The plugin factory describes and creates exactly the registered class",
  "In any history of obtaining, querying and releasing the factory its count is the references held, and a new factory is made after the last release. Whatever the length of its strings, the factory and class info fit their fields, cut at a whole character; only index 0 is a class, only the exact class ID can be created, the object created is the interface asked for with one reference, and nothing is created or leaked otherwise.",
  ["histories", "inputs"], "All histories to depth 5-6 of nine factory calls; 1,000 string length combinations; every one-bit change of four class IDs and every interface ID.",
  "The plugin package has no tests; it is not even built without the VST3 headers.",
  ["bridge/bridge.c", PL+"wrapper.go"], [("factory", "bridge/bridge.c: factory_release, factory_createInstance"), ("GoCreateInstance, GoGetClassInfo", PL+"wrapper.go")], ["wrap"])
P("P52", "Every block reaches the plugin exactly as the host passed it",
  "For any number of buses and channels, null channels and missing arrays included, the plugin is asked for audio once per block with exactly the host's channels in order, in the host's own memory and of the block's length, at the sample rate last set up; nothing outside them is written and nothing is processed while processing is off. The transport says valid exactly what the host's flags say, with the host's values and nothing left from earlier blocks, through any history of blocks, setups and failing blocks.",
  ["histories", "inputs"], "All pairs of 18 bus layouts by five block sizes, in place or not; all histories to depth 3-5 over 14 operations; all 1,024 flag sets after three kinds of block.",
  "The plugin package has no tests; it is not even built without the VST3 headers.",
  [PL+"component.go"], [("buffer mapping", PL+"component.go: Process"), ("transport", PL+"component.go: Process")], ["wrap"])
P("P53", "Automation is sample accurate and events arrive once, at their sample",
  "In every block each sample is processed once, in order, with every parameter at the last value the host automated at or before that sample (host order for equal offsets), and after the block parameters hold the last automated values, however many changes there were. Every note event of the block reaches the plugin exactly once, with the samples it belongs to, at the right offset, channel, pitch and rounded velocity, and never again in a later block. Nothing is printed, and blocks without events allocate nothing.",
  ["inputs", "histories"], "All blocks of up to 3-4 automation points of 18 kinds with five event lists; all histories of blocks to depth 3-5; up to 600 points per block.",
  "The plugin package has no tests; it is not even built without the VST3 headers.",
  [PL+"component.go", FW+"process/context.go"], [("chunking", PL+"component.go: processSampleAccurate"), ("events", PL+"component.go: processInputEvents")], ["wrap"])
P("P54", "State passes complete and unharmed through whatever stream the host gives",
  "Whatever pieces the host's stream moves at a time, wherever in it the state starts, and whether or not it can seek, a saved state is completely in the stream and loading it through any of the three entry points restores every parameter and the plugin's own data. If a stream call fails or the data end early, or the plugin refuses or panics, the host is told of a failure and the parameters are unchanged; integers, floats and strings written to a stream read back the same and none is read beyond its end.",
  ["fault points", "inputs"], "Streams of eight piece sizes, four seek abilities and two offsets failing at every call; states cut at every byte; 8,640 value sequences.",
  "The tests use buffers that never return short counts or errors.",
  ["pkg/vst3/stream.go", PL+"wrapper.go", PL+"component.go"], [("stream reading and writing", "pkg/vst3/stream.go"), ("GoComponentSetState/GetState", PL+"wrapper.go")], ["wrap"])
P("P55", "The host's and the plugin's view of the parameters always agree",
  "Titles, units and value strings of any length and script reach the host as well-formed UTF-16, cut at a whole character only if they do not fit, and the host's text reaches the plugin unchanged. In any history of edits by the host, the plugin, automation and state both sides read the same value; normalized and plain values convert into each other within the range, and unknown parameters and indexes are refused.",
  ["inputs", "histories"], "All pairs of 42 texts as titles, units and values; all histories to depth 4-5 over 17 edits; six ranges on a dense grid.",
  "The plugin package has no tests; it is not even built without the VST3 headers.",
  [PL+"component.go", PL+"wrapper_controller.go", PL+"helpers.go"], [("parameter info and strings", PL+"wrapper_controller.go"), ("UTF-16 conversion", PL+"helpers.go")], ["wrap"])
P("P56", "Host calls reach the plugin once; its failures and panics stay contained",
  "In any history of lifecycle calls the plugin receives exactly the calls the host made, with the host's sample rate, block size and state, and audio only while processing is on; latency and tail are the plugin's. When the plugin returns an error or panics in a callback the host is told of a failure, nothing else is affected, and all later calls work as before.",
  ["histories", "fault points"], "All histories to depth 4-5 over 21 operations, in which any callback starts or stops failing or panicking.",
  "The plugin package has no tests; it is not even built without the VST3 headers.",
  [PL+"wrapper.go", PL+"wrapper_audio.go", PL+"component.go"], [("recoverPanic", PL+"wrapper.go"), ("lifecycle callbacks", PL+"component.go")], ["wrap"])
P("P57", "The host sees and switches exactly the buses the plugin declared",
  "For every bus configuration the host's count, name, kind, channels, default activity and speaker arrangement of every bus are those declared, and any other bus is refused. Activating or deactivating a bus, in any history, changes exactly that bus for the plugin; activating one that does not exist fails.",
  ["configurations", "histories"], "1,024-8,192 configurations with every index and activation; all histories of activations to depth 3-4.",
  "The plugin package has no tests; it is not even built without the VST3 headers.",
  [PL+"component.go", PL+"wrapper.go", FW+"bus/bus.go"], [("GetBusInfo, GetBusArrangement, ActivateBus", PL+"component.go")], ["wrap"])
P("P65", "The view of the host's process data shows exactly what the host passed",
  "For any number of buses and channels, empty buses, null channels and missing arrays included, the wrapper of the host's process data gives exactly the host's buses, each with its channels in order, of the block's length and in the host's own memory, and nothing for buses and channels that do not exist. The context carries every field of the host's unchanged and its queries answer by the state bits VST3 defines.",
  ["inputs"], "All pairs of 16 bus layouts by six block sizes; all pairs of 20 state bits, set and cleared.",
  "The vst3 package has no tests; it is not even built without the VST3 headers.",
  ["pkg/vst3/buffers.go"], [("buffers", "pkg/vst3/buffers.go: NewAudioBuffer, NewProcessDataWrapper"), ("context", "pkg/vst3/buffers.go: NewProcessContext")], ["wrap"])
P("P66", "The host may hold and use components from several threads",
  "Whatever threads add, query and release references to a component or the factory, under every interleaving the object lives exactly until the last reference is released, then frees its memory and drops its plugin once. While one thread processes audio, others that set and read parameters, switch processing, set up, save or load state, and create, use and release components behave as if each call happened at one instant (loading a state: each parameter). There are no data races or deadlocks, and no lifecycle switch interrupts a block.",
  ["interleavings"], "Every interleaving of up to 4 preemptions of two or three threads with 1-4 reference operations on the C bridge (0.5-14 million); every schedule of up to 2-3 preemptions of two or three threads over 14 host calls.",
  "The plugin package and the C bridge have no tests, let alone concurrent ones.",
  ["bridge/component.c", "bridge/bridge.c", PL+"wrapper.go", PL+"component.go"], [("reference counts", "bridge/component.c: component_addRef, component_release"), ("component table", PL+"wrapper.go: registerComponent, getComponent"), ("locking", PL+"component.go: Process, SetActive, SetupProcessing")], ["refs", "host"])

P("P67", "The host hears of the plugin's own edits through its handler",
  "An edit that the plugin makes with notification reaches the handler that the host set last for that component, and no other, as one begin, one perform with the value the parameter has taken, and one end; an unknown parameter is refused and announces nothing. The plugin holds one reference on that handler while it is set, drops it when the host sets another or none, and holds none once the component is gone.",
  ["sequences of handler changes, edits and releases"], "Every history of 4-5 calls over two components and two handlers (16 calls).",
  "The plugin package has no tests.",
  [PL+"wrapper.go", PL+"wrapper_controller.go", PL+"component.go"], [("handler", PL+"wrapper_controller.go: GoEditControllerSetComponentHandler"), ("notification", PL+"wrapper.go: notifyParamBeginEdit, notifyParamPerformEdit, notifyParamEndEdit"), ("edit", PL+"component.go: SetParamNormalizedWithNotification")], ["edit"])
