#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it can be edited readably)."""
import json, os
P = []
S, Z, L, G, H = "src/src_sinc.c", "src/src_zoh.c", "src/src_linear.c", "src/samplerate.c", "src/common.h"

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["include/samplerate.h public API"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Output does not depend on how the stream is cut into calls",
 "For any converter, channel count and constant conversion ratio, feeding a stream through src_process in arbitrary pieces - any sequence of input block sizes and output capacities, including empty inputs, zero output room, one-frame trickles, bursts larger than any internal buffer, and the end of input signalled with the last block or by later empty calls - produces the same output frames as one call given everything at once. The sinc converters produce bit-identical frames, the zero-order-hold and linear ones the same up to rounding of the read position. The total number of frames is the same too (it may differ by one only where the end of the input falls exactly on an output instant).",
 ["schedules", "inputs", "configurations"],
 "every sequence of (input block, output room, end-of-input placement) over every stream, converter, channel count and ratio in [1/256, 256]",
 "The streaming tests use a handful of fixed block sizes and ratios with a loose amplitude comparison; the schedules of calls are unbounded and the interesting ones hit internal buffer wrap, partial loads and end of input at particular fill levels.",
 [S, Z, L, G],
 [("carry of the fractional position between calls", S + " *_vari_process, last_position"), ("internal sample buffer load / move-down", S + " prepare_data"), ("saved last frame", Z + ", " + L + " last_value")],
 [("position", "fractional read position carried between calls", H + " struct SRC_STATE_tag"), ("sinc ring buffer", "history plus look-ahead not yet used", S + " SINC_FILTER")])

prop("C02", "Callback, streaming and one-shot interfaces compute the same conversion",
 "Pulling a source through src_callback_read, in reads of any size from a callback that returns blocks of any size, yields the same frames as pushing the same source through src_process, and for a complete input at constant ratio the same as src_simple. Reading until src_callback_read returns 0 delivers the whole stream including its tail and leaves src_error at no error. The same holds when the ratio argument changes from read to read, compared with a push client that asks for the rest of each read after every block.",
 ["schedules", "inputs", "configurations"],
 "every sequence of read sizes, callback block sizes and per-read ratios, every converter, channel count and source length",
 "callback_test and simple_test compare frame counts for a few fixed sizes; equality of content under arbitrary pull schedules is not tested.",
 [G, S, Z, L],
 [("pull loop around src_process with saved remainder", G + " src_callback_read"), ("one-shot wrapper", G + " src_simple")],
 [("saved block", "unconsumed rest of the last callback block", H + " saved_data/saved_frames")])

prop("C03", "Variable-ratio conversion follows the documented linear ramp",
 "When the target ratio differs from the current one, the ratio used for the i-th frame of a call with room for n frames is current + i*(target-current)/n, each frame is the converter's interpolation (hold of the last frame, straight line, or windowed-sinc low-pass scaled by min(ratio,1)) at the accumulated input position sum of 1/ratio, and the next call starts from the ratio reached by the last generated frame. This holds over any history of calls and target ratios, including calls cut short by missing input or output room, repeated ramps in both directions across 1, and ramps spanning the whole legal range. Each value matches an independent executable model of that law within float accuracy.",
 ["histories", "schedules", "inputs", "configurations"],
 "every history of src_process calls with arbitrary target ratios, block sizes and output rooms",
 "varispeed_test checks only two ratios in one direction by SNR; the carried state (position and ratio reached) depends on the entire history of partial calls.",
 [S, Z, L, G],
 [("per-frame ratio interpolation", S + "/" + Z + "/" + L + " *_vari_process"), ("saving the ratio reached, not the target", "state->last_ratio = src_ratio"), ("filter coefficient interpolation", S + " calc_output_*")],
 [("current ratio", "ratio reached by the last generated frame", H + " last_ratio")])

prop("C04", "src_process and src_callback_read honour the caller's buffers and counts",
 "On every call, 0 <= frames used <= frames supplied and 0 <= frames generated <= room given; negative counts mean none (and may be set to zero), exactly the generated frames of the output array are written, the input array and the caller's other request fields are never modified, and no memory outside the arrays and the library's own objects is read or written. This holds for every history of valid calls: any ratios and ratio changes, channel counts, block sizes from zero to larger than any internal buffer, end of input at any time, resets, clones and refused calls in between.",
 ["histories", "schedules", "inputs", "configurations", "fault_sequences"],
 "every history of API calls with every block size, ratio trajectory, channel count and fault placement",
 "Tests run fixed histories without bounds checking; out-of-range accesses need particular buffer fill levels, one-frame blocks or ratio drops near the end of a stream.",
 [S, Z, L, G],
 [("buffer length and half-filter-length bookkeeping", S + " prepare_data, *_vari_process"), ("loop bounds on in_used/in_count and out_gen/out_count", Z + ", " + L), ("overlap and pointer checks", G + " src_process")])

prop("C05", "Only consumed input (and the next frame) can influence the stream",
 "Input frames a call reports as not used belong to the caller: if the client overwrites, discards, shortens or replaces them before presenting the next block, the stream continues exactly as if the new frames had been the only ones ever offered. Apart from the first frame of a stream, nothing beyond the single frame following the consumed ones affects the frames already generated or anything generated later. The library keeps no reference to the input array after a src_process call returns.",
 ["schedules", "histories", "inputs"],
 "every call schedule in which output room runs out before the input does, and every rewriting of the unread remainder",
 "Tests always re-present the same remaining samples from the same array, so a retained reference or an over-read is invisible.",
 [S, Z, L, G],
 [("input_frames_used accounting", S + " prepare_data; " + Z + "/" + L + " in_used"), ("copy into internal buffer / last_value", S + ", " + Z + ", " + L)])

prop("C06", "End of input flushes exactly the whole stream, once",
 "At a constant ratio r, once end of input is signalled, repeated calls consume all N input frames and deliver a total of N*r output frames to within one frame, the last ones computed as if the signal were followed by silence (hold and line converters simply stop); nothing is lost, repeated or invented however the end is signalled (with the last block, by a later empty block, or with a NULL empty block) and however little output room each call has. The first call that has room and generates nothing marks that end: every further call generates nothing and reports no error, and the callback interface ends with a read of 0.",
 ["schedules", "inputs", "configurations"],
 "every stream length (including 0 and 1), ratio, converter, channel count, drain schedule and manner of signalling the end",
 "termination_test and simple_test check totals for a few lengths and ratios with generous buffers.",
 [S, Z, L, G],
 [("real end marker and zero padding", S + " prepare_data b_real_end"), ("termination condition", S + " *_vari_process"), ("callback EOF translation", G + " src_callback_read")],
 [("real end", "where the true input stops inside the internal buffer", S + " b_real_end")])

prop("C07", "Every call returns promptly and the stream always makes progress",
 "Every API call finishes in work proportional to the frames it consumes and produces, whatever was done before; with both input and output room available before the end of input, a src_process call consumes or produces something and keeps back no more output than the filter's half-length needs. src_callback_read returns for every behaviour of the callback - one-frame trickles, an end of input, resuming after an end of input, negative counts - after a number of requests bounded by the input needed for that read. Once a stalling source and sink become fair, the stream completes within a bounded number of calls.",
 ["schedules", "fault_sequences", "histories"],
 "every history and every pattern of stalls, trickles and misbehaving callbacks, followed by a fair phase",
 "Liveness quantifies over all histories; tests only use well-behaved sources and would simply hang.",
 [G, S, Z, L],
 [("pull loop exit conditions", G + " src_callback_read"), ("buffer reload decision", S + " prepare_data and samples_in_hand test"), ("position carry", Z + ", " + L)])

prop("C08", "A clone continues exactly like the original and shares nothing with it",
 "At any moment of any stream (fresh, mid-ramp, mid-drain, finished, callback mode with part of a block unread) src_clone returns a converter whose subsequent results are bit-identical to what the original would have returned for the same calls. From then on the two never affect one another: any use, reset or deletion of one leaves the other's output unchanged, so a crashed stream resumed from its clone finishes as the uninterrupted one.",
 ["histories", "schedules", "crash_points", "configurations"],
 "every clone point in every history, every interleaving of the two (or more) converters afterwards, every order of deletion",
 "clone_test clones once after one block per converter and compares one further block.",
 [S, Z, L, G],
 [("deep copy of private data", S + " sinc_copy, " + Z + " zoh_copy, " + L + " linear_copy")])

prop("C09", "src_reset makes a converter indistinguishable from a new one",
 "After src_reset at any moment of any history - mid-block, mid-ramp, mid-drain, after end of input, after src_set_ratio, after refused calls, in callback mode with part of a block unread or after an error - all subsequent results (frames, counts, error codes, callback requests) are bit-identical to those of a newly created converter of the same kind. Nothing of the earlier signal, position, ratio or error survives.",
 ["histories", "crash_points", "configurations"],
 "every history before the reset and every history after it",
 "reset_test compares a single long block before and after a reset; leftovers in carried state need particular phases to show.",
 [S, Z, L, G],
 [("reset of common state", G + " src_reset"), ("reset of converter state", S + " sinc_reset, " + Z + " zoh_reset, " + L + " linear_reset")])

prop("C10", "Running out of memory fails cleanly",
 "If any allocation fails inside src_new, src_callback_new, src_clone or src_simple, the call returns NULL (src_simple: a non-zero code) with the error reported as 'Malloc failed.', also when the caller passed no place for the error, and everything allocated on the way is released. The converter being cloned and all other converters continue unaffected, and a retry once memory is available succeeds and behaves normally. Conversion itself, resets and ratio changes never depend on memory being available.",
 ["fault_sequences", "histories", "configurations"],
 "every position of allocation failures (single, repeated, persistent) in every history of creations, clones and conversions",
 "No test makes an allocation fail.",
 [S, Z, L, G],
 [("unwinding on calloc/malloc failure", S + " sinc_filter_new, sinc_state_new, sinc_copy; " + Z + " and " + L + " *_data_new, *_state_new, *_copy"), ("error code mapping", G + " src_clone, psrc_set_converter")])

prop("C11", "Every converter owns its memory and releases it exactly once",
 "Over any history of creations, clones, conversions, resets and deletions of any number of converters in any order, every block the library allocated is released exactly once, no later than the src_delete of the converter it belongs to, and never while another converter or the caller still uses it. src_delete always returns NULL and accepts NULL; src_simple and failed creations leave nothing allocated; memory in use depends only on the converters alive, not on how long or how they ran.",
 ["histories", "schedules", "configurations"],
 "every history of object lifecycles",
 "Tests create and delete one converter at a time without leak or double-free detection.",
 [S, Z, L, G],
 [("close functions", S + " sinc_close, " + Z + " zoh_close, " + L + " linear_close"), ("src_delete", G), ("allocation in *_new and *_copy", S + ", " + Z + ", " + L)])

prop("C12", "Invalid requests are refused with the right error and change nothing",
 "A call with a NULL converter, NULL request, NULL array with a non-zero count, overlapping arrays, a ratio outside [1/256, 256] (including NaN and infinities), the wrong interface for the converter's mode, an unknown converter number, or a bad channel count is refused with the corresponding documented error (NULL or 0 plus the error code where the interface returns those) and writes no output. At whatever point of a stream it happens, the stream afterwards continues bit-identically as if the call had not been made. In callback mode a refused read returns 0 and leaves its error readable through src_error (until a later successful read or a reset), and src_is_valid_ratio agrees with what is accepted.",
 ["fault_sequences", "histories", "inputs", "configurations"],
 "every kind of invalid call injected at every point of every history",
 "misc_test and a few others check some error codes on fresh converters; harmlessness mid-stream is untested.",
 [G, H, S, Z, L],
 [("argument checks before any state change", G + " src_process, src_callback_read, src_set_ratio, src_callback_new, psrc_set_converter"), ("ratio range predicate", H + " is_bad_src_ratio")])

prop("C13", "Converters used from different threads never interfere",
 "Different converters may be created, used, cloned, reset and deleted concurrently from different threads, without any locking by the caller, under every interleaving: each produces bit-identically what it would produce alone, and no memory is written by one thread while visible to another. A converter may be handed from one thread to another between calls without any difference.",
 ["schedules", "histories", "configurations"],
 "every preemption schedule of any number of threads each running its own converters, including hand-offs",
 "There are no concurrent tests; interference depends on the interleaving.",
 [S, Z, L, G],
 [("no mutable global state; all state reachable from the handle", G + ", " + S + ", " + Z + ", " + L)])

prop("C14", "Channels of a stream are converted independently and alike",
 "Each channel of an M-channel stream is converted exactly as a one-channel stream with the same samples and ratio would be (up to float rounding, and at most one frame of total length), for every M a converter accepts and every call schedule of either stream. The content of one channel, including NaN, infinities or full-scale noise, never changes a bit of any other channel.",
 ["inputs", "schedules", "configurations"],
 "every channel count and signal content, every call schedule and ratio on each side",
 "multi_channel_test compares by SNR for up to 9 channels at a few ratios; sinc has five separate code paths by channel count.",
 [S, Z, L],
 [("per-channel-count inner loops", S + " calc_output_single/stereo/quad/hex/multi"), ("channel-interleaved indexing", Z + ", " + L)])

prop("C15", "A corrupt sample has local effects only and timing ignores content",
 "The numbers of frames consumed and generated by every call, and the errors returned, depend only on the requests and never on sample values. If some input samples are corrupted (bit flips, NaN, infinities, huge values), only output frames whose interpolation instant lies within the filter's half-length of a corrupted frame can change; all others are bit-identical to the uncorrupted run, and nothing remains after that window or after a reset.",
 ["fault_sequences", "inputs", "schedules"],
 "every placement and kind of sample corruption in every stream and call schedule",
 "No test feeds non-finite or corrupted data.",
 [S, Z, L],
 [("finite filter support", S + " calc_output_*"), ("single saved frame", Z + ", " + L + " last_value"), ("buffer clearing", S + " sinc_reset")])

prop("C16", "Results do not depend on memory contents, addresses or environment",
 "A converter's results are a function of the sequence of calls and the samples passed only: they are bit-identical whatever the heap or stack previously contained, wherever objects and arrays are placed or aligned, whatever the output array and result fields held before the call, how many other converters existed before, and whatever the clock or process environment says. Recycled memory never leaks an earlier stream into a new one.",
 ["histories", "fault_sequences", "configurations"],
 "every initial content of allocated memory, placement, alignment, prior history of the process and environment reading",
 "Tests run once in one process environment, where fresh memory is usually zero.",
 [S, Z, L, G],
 [("calloc / explicit initialisation of all state", S + " sinc_filter_new, sinc_reset; " + Z + ", " + L + " *_reset, *_copy"), ("no use of uninitialised buffer regions", S + " prepare_data, calc_output_*")])

prop("C17", "Long streams keep exact rate: no drift, no slip",
 "Over arbitrarily long streams the frames consumed and produced stay locked to the requested ratio: after any number of frames the next output instant equals the sum of 1/ratio over all frames generated, to within rounding, so outputs produced never deviate from the ideal count by more than the filter delay plus one frame. This holds for constant ratios and for continuously steered ones (clock-drift compensation) over simulated hours, and every sample position error stays far below one frame.",
 ["histories", "schedules", "configurations"],
 "streams of unbounded length at every ratio, constant or following any trajectory, in any call schedule",
 "Tests convert at most some hundred thousand frames; a rounding or carry error per call or per wrap accumulates only over long runs.",
 [S, Z, L],
 [("double precision position with integer part removed every frame", H + " fmod_one; *_vari_process"), ("buffer wrap", S + " prepare_data")])

prop("C18", "The input callback is called exactly when and as promised",
 "src_callback_read calls the user function with the user data pointer given at creation, never while frames of the previous block are unconsumed, never for a refused or empty read and never once the read is satisfied. The library consumes each block completely, exactly once and in order, never touches a block after asking for the next one nor modifies any, and a read delivers fewer frames than requested only at end of input or on error. Callbacks may themselves use other converters.",
 ["schedules", "histories", "fault_sequences"],
 "every sequence of read sizes, ratios, block sizes (including blocks whose memory is reclaimed as soon as the next is requested), converters nested in callbacks of others, and mid-stream resets or ratio changes",
 "callback_test uses one well-behaved callback with static data.",
 [G],
 [("saved_data/saved_frames bookkeeping and loop conditions", G + " src_callback_read")])

prop("C19", "src_set_ratio makes the next call start at exactly the given ratio",
 "After src_set_ratio(r), the next src_process or src_callback_read starts at ratio r from its first frame, at any point of any stream, in either interface and on a fresh converter: if its requested ratio is r every frame uses r (a step with no transition), otherwise the linear ramp starts from r. The read position and signal history are unaffected, the last of several settings before a call wins, and a refused value has no effect.",
 ["histories", "schedules", "configurations"],
 "every history, every ratio set at any point, in both interfaces",
 "Only varispeed_test calls it once on a fresh converter.",
 [G, S, Z, L],
 [("starting ratio of the next call", G + " src_set_ratio, src_process")],
 [("current ratio", "starting ratio of the next call", H + " last_ratio")])

prop("C20", "PCM conversion helpers scale, clip and round correctly for every value",
 "The four float/short/int array helpers scale by full scale, clip values outside the range to the extreme of the same sign, round to nearest, and conversion to float and back is the identity for every short value; results per element do not depend on neighbours or array length.",
 ["inputs"], "every element value and array length",
 "float_short_test samples a few ranges.",
 [G], [("scaling and clipping", G + " src_*_array")])

prop("C21", "Each converter meets its advertised bandwidth and signal-to-noise ratio",
 "For band-limited input each sinc converter's output differs from the ideal band-limited resampling by no more than its advertised noise level up to its advertised bandwidth, for every ratio.",
 ["inputs", "configurations"], "every signal and ratio",
 "snr_bw_test measures a few sines at a few ratios.",
 [S], [("coefficient tables and interpolation", S)])

prop("C22", "Names, descriptions and error texts are total and consistent",
 "src_get_name and src_get_description return a text for exactly the converter numbers known to the library and NULL otherwise; src_strerror returns a text for every code any function returns and NULL for unknown codes.",
 ["inputs"], "every integer argument",
 "misc_test enumerates a few; it is a finite pure function.",
 [G, S, Z, L], [("lookup functions", G + " src_get_name, src_strerror")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
