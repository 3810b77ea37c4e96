import json
S="source/c-precompiled/sph-sp/"; L="source/c/foreign/sph-sc-lib/sph-sp/"
P=[]
def p(id,title,st,over,text,why,files,mech,**k):
  assert len(title)<=80,title
  a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
  a.update(k)
  P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Block-wise sequencing renders each event completely, once and in time",
 "When a sorted list of events is rendered in consecutive blocks, each event is prepared exactly once before it is first generated, is then asked for exactly its own duration as consecutive ranges without gap or repetition, and each range is written at the place in the block that corresponds to the event's start time, without giving it more output than the block has. Events that ended before a block are freed exactly once and leave the list when that block is processed, future events stay untouched. If preparing or generating fails, the error is returned, nothing further is generated, and every event of the list is freed exactly once.",
 ["inputs","histories","fault_sequences"],"all start times, durations, block borders, sets of events and points of failure",
 "the tests render a handful of fixed event lists with one block layout and no failing event",
 [S+"sequencer.c"],[("sp_seq","sequencer.c sp_seq"),("offsetting of the output block","main.c sp_block_with_offset")])
p("C02","Parallel sequencing gives the sequential result for every schedule",
 "Rendering an event list with several threads writes the same output, with the same preparations, generated ranges and frees, as rendering it sequentially, whatever the order and time at which the workers execute the events. The call does not return while a worker can still use its events or buffers, it releases all temporary memory, and if an event fails then an error is returned and all events are freed exactly once.",
 ["schedules","inputs","fault_sequences"],"all schedules of the event evaluations, event times, block borders and failing events",
 "the only parallel test uses one list, and the operating system chooses one schedule per run",
 [S+"sequencer.c",L+"futures.c"],[("sp_seq_parallel distribute and merge","sequencer.c"),("sp_seq_parallel_future_f","sequencer.c")])
p("C03","Event lists stay sorted, fully linked and lossless under every operation",
 "After any sequence of additions, removals and reversals an event list contains exactly the events that were added and not removed, ordered by start time (events with equal start in a fixed order), and is linked consistently in both directions. Removing an element or freeing the list calls the free routine of each affected event exactly once and releases the memory of the elements, also for first, middle, last and only elements and for the empty list.",
 ["inputs","histories"],"all operation sequences and start times",
 "the test adds three events and removes a fixed one",
 [S+"sequencer.c"],[("sp_event_list_add","sequencer.c"),("sp_event_list_remove","sequencer.c"),("sp_event_list_reverse","sequencer.c"),("sp_event_list_free","sequencer.c")])
p("C04","Memory registered with an event is released exactly once with the event",
 "Every address that is registered with an event is passed exactly once to the handler it was registered with when the event's memory is freed, regardless of how many are registered and whether space was reserved before. Registering never writes outside of the register, keeps previous registrations, and keeps a free routine that the event already has.",
 ["inputs","histories"],"all sequences of reservations and registrations and their counts",
 "tests register a fixed, small number of addresses and cannot see a missed or repeated release",
 [S+"sequencer.c",L+"array3.h"],[("sp_event_memory_add_with_handler","sequencer.c"),("sp_event_memory_ensure","sequencer.c"),("sp_event_memory_free","sequencer.c")])
p("C05","Groups schedule their members at the right time and length",
 "Adding an event to a group keeps its start, and the group ends with the latest end of its members; appending places an event after the current end of the group and extends the group by the event. A group, nested to any depth, sounds as if its members were sequenced on their own with the starts of all enclosing groups added, and freeing it frees all remaining members once. Members without known end are prepared immediately, and only once.",
 ["inputs","histories"],"all member times, add and append orders, nestings and block borders",
 "one test with fixed members",
 [S+"sequencer.c"],[("sp_group_add","sequencer.c"),("sp_group_append","sequencer.c"),("sp_group_prepare","sequencer.c"),("sp_group_generate","sequencer.c")])
p("C06","Map events transform exactly the output of the wrapped event",
 "A map event gives the map function exactly the range and the output of the wrapped event: without isolation the shared output, with isolation a zero-initialised buffer of its own that contains nothing else, while the map function alone writes to the shared output. The wrapped event is prepared once and freed once with the map event, temporary buffers are always released, and errors of the wrapped event or the map function are returned.",
 ["inputs","histories","fault_sequences"],"all ranges, sample values, isolation settings and failures",
 "one test with a fixed constant event",
 [S+"sequencer.c"],[("sp_map_event_prepare","sequencer.c"),("sp_map_event_generate","sequencer.c"),("sp_map_event_isolated_generate","sequencer.c"),("sp_map_event_free","sequencer.c")])
p("C07","Table oscillators keep a stable phase and sum amplitude-scaled samples",
 "The lookup-table oscillator adds to each output sample the amplitude factor times the amplitude array value times the waveform value at the current phase, where the phase is the sum of all previous frequency steps modulo the length of the waveform, plus the phase offset where one is given. Splitting a duration into any consecutive blocks gives the same samples as one block, channels use their own or the first channel's settings as configured, and the waveform is never read out of bounds.",
 ["inputs","histories"],"all frequencies, modulation values, phases, waveforms and block divisions",
 "tests compare a few samples of a fixed sine",
 [S+"main.c",S+"sequencer.c"],[("sp_wave","main.c"),("sp_wave_event_prepare","sequencer.c"),("sp_wave_event_generate","sequencer.c")])
p("C08","Noise events fill every requested sample from buffers that are large enough",
 "A noise event that is generated for any range, in any division into blocks not larger than the supported block size, adds to each sample of the range exactly one amplitude-scaled and limited filter output sample, filters the noise in consecutive pieces of at most the configured resolution with the parameters valid at the start of each piece, and never accesses its buffers or modulation arrays out of bounds. All memory and filter states are released exactly once when the event is freed or when preparing fails.",
 ["inputs","histories","fault_sequences"],"all durations, resolutions, ranges, channel configurations and allocation failures",
 "tests use one duration, cannot observe buffer overruns and do not inject failures",
 [S+"sequencer.c"],[("sp_noise_event_prepare","sequencer.c"),("sp_noise_event_generate_block","sequencer.c"),("sp_event_block_generate","sequencer.c"),("sp_noise_event_free","sequencer.c")])
p("C09","Convolution of a stream in blocks equals convolution of the whole signal",
 "Convolving a signal with an impulse response gives the discrete linear convolution. Feeding the signal in consecutive blocks of any sizes, also shorter than the impulse response, gives sample for sample the same output as the whole signal at once, with the rest of the response kept in the carryover, and only the given arrays are accessed.",
 ["inputs","histories"],"all sample values, block divisions and impulse response lengths",
 "one test with one division into blocks",
 [S+"main.c"],[("sp_convolve_one","main.c"),("sp_convolve","main.c")])
p("C10","Streaming filters survive changes of the impulse response without loss",
 "A streaming convolution filter whose impulse response function or arguments change between blocks outputs in each block the input convolved with the response that is valid for that block plus all output still due from previous blocks, nothing is lost, repeated or taken from uninitialised memory. The response is only recalculated when function or arguments change, and after a failed update the previous state stays usable; freeing the state releases everything.",
 ["histories","inputs","fault_sequences"],"all sequences of responses, lengths, arguments, block sizes and allocation failures",
 "tests use one response with unchanged arguments",
 [S+"filter.c"],[("sp_convolution_filter_state_set","filter.c"),("sp_convolution_filter","filter.c"),("sp_convolution_filter_state_free","filter.c")])
p("C11","The moving average equals its definition at every sample and across segments",
 "Each output of the centered moving average is the mean of the 2 * radius + 1 input values around it, using the end of the previous and the beginning of the next segment where given and sign-inverted reflections over the first or last value otherwise. Processing a signal in segments with neighbours gives the same values as processing it whole, and nothing outside the arrays is read.",
 ["inputs"],"all sample values, sizes, radii and presence of neighbouring segments",
 "tests use two fixed arrays",
 [S+"filter.c"],[("sp_moving_average","filter.c")])
p("C12","Filter kernels have the documented length, gain, composition and symmetry",
 "Windowed-sinc kernels have an odd length of at least four divided by the transition; low-pass kernels are the window times sinc normalised to unity gain, high-pass kernels are the spectral inversion of the low-pass kernel. Band-pass kernels are the convolution and band-reject kernels the center-aligned sum of a low-pass and a high-pass kernel; cutoffs at or beyond the limits degenerate to the corresponding single kernel, passthrough or silence. All temporary memory is released.",
 ["inputs","configurations"],"all cutoffs, transitions and filter types (trigonometric functions are abstract)",
 "tests check one kernel's length and the output level of a few settings",
 [S+"filter.c",S+"main.c"],[("sp_windowed_sinc_lp_hp_ir","filter.c"),("sp_windowed_sinc_bp_br_ir","filter.c"),("sp_windowed_sinc_lp_hp_ir_length","filter.c"),("sp_spectral_inversion_ir","main.c")])
p("C13","Interpolated paths and envelopes pass through their points for every division",
 "A sampled path takes each given point's value at the point's position, interpolates linearly on straight segments, stays between the end values for curved segments and writes every sample of the requested range and none outside. Reading a path in any consecutive pieces gives the same values as reading it at once. Envelope helpers give the path through zero or scaled points at the cumulative, length-relative positions, independent of which variant is used, and report allocation failures.",
 ["inputs","histories"],"all point positions and values, lengths and divisions",
 "tests compare few fixed paths",
 [S+"path.c",L+"spline-path.c"],[("spline_path_get","spline-path.c"),("spline_path_line_generate","spline-path.c"),("spline_path_beziern_generate","spline-path.c"),("sp_path_samples","path.c"),("sp_envelope_zero","path.c"),("sp_envelope_scaled","path.c")])
p("C14","Element-wise array operations apply exactly to the given elements",
 "The element-wise operations on time and sample arrays (set, add, subtract, multiply, divide, square, with a value or another array, and the and/or/xor combinations) give for every element the result of the operation on that element alone, with subtraction of times not going below zero, and change nothing outside the given range. Reversal, range, copy, duplication, swap, minimum, maximum, absolute maximum and equality equal their definitions.",
 ["inputs"],"all values, counts and limits",
 "most of these functions have no test or one with a single array",
 [S+"arrays-template.c",S+"arrays.c"],[("arrays_template","arrays-template.c")])
p("C15","Selecting, removing and inserting array elements loses and invents nothing",
 "Removing, inserting space, selecting by index, extracting by range, filtering indices above a limit, subdividing differences, sequence increments, shuffling and conversions between times and samples give exactly the elements of the input that the operation defines, in the original order unless the operation is a rearrangement, and access nothing outside the arrays, also for the first, last and all elements and where documented for in-place use.",
 ["inputs"],"all values, counts, positions and random numbers",
 "tests use one position per function",
 [S+"arrays.c"],[("sp_times_remove","arrays.c"),("sp_times_insert_space","arrays.c"),("sp_times_extract_in_range","arrays.c"),("sp_times_subdivide_difference","arrays.c"),("sp_shuffle","arrays.c")])
p("C16","Scaling, limiting, blending and summing hit their documented targets",
 "Scaling to a maximum makes the largest magnitude equal the target and scaling to a sum gives values whose sum equals the target up to rounding, both keeping the order and relative sizes of values; limits clamp to the limit and leave other values unchanged; blends and masks lie at the given fraction between both inputs; cumulative sums, differences, repeated additions, multiplications and divisions equal their recurrences; rounding to a multiple gives the nearest multiple.",
 ["inputs"],"all values in a small integer domain, all counts within the bound",
 "tests use one array per function",
 [S+"arrays.c",S+"arrays-template.c",S+"statistics.c"],[("sp_times_scale_y","arrays.c"),("sp_times_scale_sum","arrays.c"),("sp_samples_scale_y","arrays.c"),("sp_samples_limit_abs","arrays.c"),("sp_samples_scale_to_times","statistics.c")])
p("C17","Permutations, compositions and sequences are complete and without repetition",
 "For every set the generated permutations are all distinct orders of its elements, each exactly once, and the given set is unchanged; the generated compositions are all ordered ways to sum positive numbers to the given sum, each once, with matching sizes; generated number sequences count through all digits. The announced maximum counts equal the mathematical counts and powers, and all memory is owned by the caller or released.",
 ["inputs"],"all sets and values up to the bound",
 "tests check one set size and cannot see missing memory release",
 [S+"arrays.c",S+"main.c"],[("sp_times_permutations","arrays.c"),("sp_times_compositions","arrays.c"),("sp_times_sequence_increment","arrays.c"),("sp_permutations_max","main.c")])
p("C18","Statistics and sorting equal their mathematical definitions",
 "Mean, median, range, deviation, center of mass, skewness, kurtosis and inharmonicity of time and sample arrays equal their definitions for every array, do not modify the input and release their memory. The sort that they use terminates with an ordered permutation of the input and without access outside of it.",
 ["inputs"],"all arrays up to the bound with small integer values",
 "tests use one array per statistic",
 [S+"statistics.c",L+"quicksort.h"],[("define_sp_stat_*","statistics.c"),("quicksort","quicksort.h")])
p("C19","Random numbers stay in range, are reproducible and follow the distribution map",
 "Bounded random numbers are always inside the requested range, and floating point ones inside -1..1 or 0..1 excluding the upper end, for every generator state; array variants give exactly the numbers that repeated single calls give, and equal seeds give equal sequences. Discrete random numbers map every deviate to the index whose cumulative share contains it, never to an index with zero share, and unique variants never repeat.",
 ["inputs","histories"],"all generator states, ranges and cumulative distributions up to the bound",
 "tests sample some numbers from one seed",
 [L+"random.c",S+"arrays.c"],[("sph_random_u64_bounded","random.c"),("sph_random_f64_bounded","random.c"),("sp_time_random_discrete","arrays.c"),("sp_times_random_discrete_unique","arrays.c")])
p("C20","Written sound files are valid and read back exactly",
 "A file that is written with any number of write calls and closed is a valid 32 bit float wav file whose header fields match channel count, rate and data size and whose data is the interleaved samples in order; reading it in any portions returns the same channels and samples at 32 bit precision and reports the end of the file. Files that are missing, truncated, of another type or format are rejected with an error, and failures of opening, reading or writing are reported by the call in which they occur (closing reports nothing), without leaking files or memory.",
 ["inputs","histories","fault_sequences"],"all sample counts, channel counts, portions, header contents and failing file operations",
 "the test writes and reads one fixed block and never meets an invalid file or a failing operation",
 [S+"file.c"],[("sp_file_open_write","file.c"),("sp_file_write","file.c"),("sp_file_close_write","file.c"),("sp_file_open_read","file.c"),("sp_file_read","file.c")])
p("C21","Rendering a range to a file or block gives exactly that range once",
 "Rendering an event between two times to a file writes exactly the samples of that range in order, independent of the block size and also when the range does not start at zero or is not a multiple of the block size; rendering to a block gives the same samples. Each sample starts from silence, events are freed once, and on any failure an error is returned and the file is closed and all memory released.",
 ["inputs","fault_sequences"],"all ranges, block sizes and failures",
 "the tests render from zero with sizes that fit in few blocks",
 [S+"main.c",S+"sequencer.c"],[("sp_render_range_file","main.c"),("sp_render_range_block","main.c")])
p("C22","Allocation failures are reported and leak nothing",
 "When any single memory allocation fails, the operation that needed it returns an error instead of success or a crash, and everything that was allocated up to that point is released or remains owned by the caller as it would on success. Data that existed before remains valid and can be freed.",
 ["fault_sequences"],"every position of the failing allocation in every allocating operation",
 "tests never make an allocation fail",
 [S+"arrays.c",S+"main.c",S+"filter.c",S+"path.c",S+"sequencer.c",L+"helper.c"],[("status_require with exit labels","all sources"),("memreg registers","memreg.h")])
p("C23","Blocks and interleaving address exactly the samples of their channels",
 "New blocks have the requested size and number of zero-initialised channels, offset blocks address the same samples from the offset on with the remaining size, and copying and zeroing affect all samples of all channels and nothing else. Interleaving places sample i of channel c at index i * channels + c, and deinterleaving is its inverse.",
 ["inputs"],"all sizes, channel counts, offsets and sample values up to the bound",
 "tests use one size with two channels",
 [S+"main.c"],[("sp_block_new","main.c"),("sp_block_with_offset","main.c"),("sp_block_copy","main.c"),("define_sp_interleave","main.c")])
p("C24","The thread pool runs every task exactly once and always shuts down",
 "The queue returns elements in the order they were added. Every task or future that is submitted to the pool is executed exactly once for every schedule of the workers and every spurious wake-up, waiting for a future returns only after it finished and then gives its result, queue operations are mutually exclusive, and neither waiting nor shutting down hangs; shutting down lets queued tasks finish and releases the pool, which can then be started again.",
 ["schedules","histories"],"all schedules of workers and caller up to the bound",
 "a test run sees the one schedule that the operating system chooses",
 [L+"thread-pool.c",L+"futures.c",L+"queue.h"],[("sph_thread_pool_enqueue","thread-pool.c"),("sph_thread_pool_worker","thread-pool.c"),("sph_thread_pool_finish","thread-pool.c"),("sph_future_new","futures.c"),("sph_future_touch","futures.c"),("sph_queue_deq","queue.h")])
p("C25","Elementary wave shapes, phases and panning follow their definitions",
 "Phase accumulation is the sum modulo the cycle and always less than the cycle. The triangle rises from 0 to 1 over its first and falls over its second part and is periodic, the square is -1 for the first half (rounded up) of each period and 1 for the rest. Panning maps each channel of a pair to a factor between 0 and 1, with full volume of both in the middle and only one at the extremes, also for channels beyond the first pair.",
 ["inputs"],"all times, periods, phases and pan values up to the bound",
 "tests sample few positions",
 [S+"main.c"],[("sp_phase","main.c"),("sp_phase_float","main.c"),("sp_triangle","main.c"),("sp_square","main.c"),("sp_pan_to_amp","main.c")])
p("C26","The Fourier transform of power-of-two lengths equals the discrete transform",
 "For input lengths that are powers of two the transform gives the discrete Fourier transform of the input in place, and the inverse transform of the result gives the input times the length. Allocation failure is reported with a non-zero result, and temporary memory is released.",
 ["inputs","fault_sequences"],"all small integer inputs of length 1, 2 and 4 (exact sine and cosine values)",
 "one test compares one input approximately",
 ["source/c/foreign/nayuki-fft/fft.c",S+"main.c"],[("Fft_transformRadix2","fft.c"),("sp_fft and sp_ffti","main.c")])
p("C27","Every status has the right name and description",
 "Each error number of the library maps to its documented, non-empty description and to a name, unknown numbers and groups map to an empty description and the name unknown, and the lookup never fails or reads out of bounds for any number and group.",
 ["inputs"],"all 32 bit status numbers of every group",
 "no test calls them",
 [S+"main.c",L+"helper.c"],[("sp_status_description","main.c"),("sp_status_name","main.c")])
p("C28","Bytes and bits are converted to integers without loss",
 "Reading a little-endian integer from one to eight bytes gives the number that these bytes encode and reads only these bytes. Expanding integers to arrays of bits gives bit i of the input, lowest first, for every number of bits, also when input and output are the same array, and random bit arrays contain only zeros and ones.",
 ["inputs"],"all byte values, lengths and bit counts up to the bound",
 "the tests use one or two numbers",
 [S+"arrays.c"],[("sp_u64_from_array","arrays.c"),("sp_times_bits_to_times","arrays.c"),("sp_times_random_binary","arrays.c")])
p("C29","Initialisation sets a consistent state and can be repeated",
 "Successful initialisation sets sample rate, channel count and random state to the same documented values every time and fills the wave tables with exactly one sine period each. If an allocation or the start of threads fails, an error is returned and everything is released; after deinitialisation the library can be initialised again, with or without threads, and no memory is left.",
 ["configurations","fault_sequences","histories"],"all rates up to the bound, thread counts and allocation failures (sine is abstract)",
 "the tests initialise once",
 [S+"main.c",L+"futures.c"],[("sp_initialize","main.c"),("sp_deinitialize","main.c"),("sp_sine_period","main.c")])
p("C30","The Fourier transform of other lengths equals the discrete transform",
 "For input lengths that are not powers of two the transform equals the discrete Fourier transform within floating point accuracy, and the inverse transform gives the input times the length. Allocation failure is reported with a non-zero result, and temporary memory is released.",
 ["inputs"],"all inputs of all lengths",
 "one fixed input at most",
 ["source/c/foreign/nayuki-fft/fft.c"],[("Fft_transformBluestein","fft.c")])
p("C32","Time and index helpers keep their definitions",
 "Harmonizing moves a time by the given fraction of its distance to the nearest multiple of the base, fully to it for one and not at all for zero; deharmonizing moves it away from the multiple by a random distance of at most half a base that is larger the nearer the multiple is, never below zero; averaged random numbers stay in their range. Index matching selects the first divisor that divides the index, else the last, and scheduling shifts start and end of a copy of the event by onset and duration and keeps everything else.",
 ["inputs"],"all times up to a bound, listed bases, all random numbers",
 "no test calls them",
 [S+"main.c",S+"sequencer.c"],[("sp_time_harmonize","main.c"),("sp_time_deharmonize","main.c"),("sp_normal_random","main.c"),("sp_modulo_match","main.c"),("sp_event_schedule","sequencer.c")])
p("C31","Filters attenuate the stop band",
 "The frequency response of windowed-sinc filters passes frequencies below and attenuates frequencies beyond the cutoff plus transition by the attenuation of the Blackman window.",
 ["inputs","configurations"],"all cutoffs, transitions and signals",
 "tests measure few frequencies",
 [S+"filter.c"],[("sp_windowed_sinc_lp_hp_ir","filter.c"),("sp_window_blackman","filter.c")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
