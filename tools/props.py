#!/usr/bin/env python3
"""Specification of the properties. Generates properties.jsonl and MANIFEST.json for those that have a check in checks.json.

    python3 tools/props.py
"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}


def prop(id, title, statement, over, text, tests, files, mechanism, technique, note, observe=None):
    assert len(title) <= 80, title
    P[id] = dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(), text=text, tests=tests,
                 files=files.split(), mechanism=mechanism, technique=technique, note=note, observe=observe or [])


# --- mixing

prop("M01", "Mixed audio is the saturated sum of what each participant sent",
     """Each output frame of a mixer has exactly one frame of samples, and each sample is the sum of the corresponding next unread samples of all
     inputs, limited to ±32767; an input that runs out of audio contributes silence for the missing samples and is then held back until half of its buffer
     is filled again, and audio of an input that was written above its buffer limit loses the oldest samples.
     Audio of each input is used at most once, in order, never leaks to another input, and a frame that was handed to the output is never modified afterwards.""",
     "inputs histories schedules",
     "all sets of inputs, sample values, write sizes and times relative to the mixing period, buffer limits, output modes (direct or through a channel), output stalls",
     "The tests mix a few hand written frames synchronously, one input layout at a time; no test combines several inputs, underruns, overruns and output channels over time.",
     "mixer/mixer.go ring/buffer.go",
     [{"name": "ring buffer per input, 32-bit accumulator with clipping, a new slice for each frame", "where": "mixer/mixer.go mixOnce, mixInputs, readSample, WriteSample"}],
     "runtime monitor: online reference mixer compared with each output frame in virtual time",
     "Random histories of the real mixer goroutines in virtual time; the reference is driven by observed mix times. Exploration only: finite seeds.",
     ["frames received by the output writer"])
prop("M02", "Mixer keeps up with wall clock and never bursts above its limit",
     """While the output isn't stalled, a mixer writes exactly one frame per period.
     After a stall that is not longer than the number of buffered frames it catches up, so that the number of frames matches the elapsed time;
     after a longer one it writes at most that number of frames and continues at the normal pace from there.""",
     "schedules histories",
     "all sequences of stalls of the output or of the scheduler, buffer limits, periods and output modes",
     "Tests of timing call the update function with real sleeps for two or three stalls; they can't cover arbitrary sequences of stalls nor check exact counts.",
     "mixer/mixer.go",
     [{"name": "end time of the last mix, fuzz of 1/4 period, reset above the buffer limit", "where": "mixer/mixer.go mixUpdate"}],
     "runtime monitor: frame times against elapsed periods in virtual time",
     "Exact in virtual time except stalls that end within the documented quarter period of tolerance, where ±1 frame is accepted.",
     ["times of writes to the output"])
prop("M03", "Mixer statistics account for every track, sample, frame and error",
     """All counters of a mixer match what was observed at its boundary: created and live inputs, frames and samples written to inputs, dropped on overflow, mixed and
     sent to the output, failed writes, restarts of starving inputs, kinds of mixes and blocked outputs.
     They stay exact with concurrent writers: what is mixed or dropped never exceeds what was written.""",
     "histories schedules",
     "all histories of inputs, writes, overflows, underruns, stalls and output errors, including concurrent ones",
     "The tests check a handful of counters in single threaded scenarios.",
     "mixer/mixer.go",
     [{"name": "atomic counters", "where": "mixer/mixer.go Stats"}],
     "runtime monitor: counters against a reference model and conservation equations",
     "Counters are read at quiescent points of the schedule.")
prop("M04", "Stopping a mixer ends its goroutines; inputs may come and go at any time",
     """After Stop, whatever the mixer and its output are doing at that time, no goroutine of the mixer stays behind, no new inputs are created and, apart from frames that were already
     being mixed or queued, nothing is written to the output.
     Inputs can be created, written, closed (also twice) and removed concurrently with mixing without races or deadlocks, a removed input is never heard again, a nil mixer has no inputs, and closing or removing a nil input does nothing.""",
     "schedules histories",
     "all points of Stop relative to ticks, blocked outputs and full channels; all interleavings of input operations with mixing",
     "No test stops a running mixer with a blocked output or checks for leaked goroutines; the suite is not run with the race detector.",
     "mixer/mixer.go",
     [{"name": "stop fuse, lock around the list of inputs and each input's buffer", "where": "mixer/mixer.go Stop, start, writer, NewInput, RemoveInput"}],
     "race detector + goroutine leak and deadlock monitor in virtual-time bubbles",
     "Interleavings are those the scheduler produced under the race detector; leaks are exact in the explored histories.")
prop("B01", "Ring buffer is a bounded FIFO that keeps the newest elements",
     """A ring buffer always holds the latest written elements up to its size, in the order they were written, however writes and reads wrap around.
     Read returns the oldest elements, as many as are available and fit, and reports an empty buffer; Write reports all elements as written; length and size are exact.""",
     "inputs histories",
     "all buffer sizes, rotations, fill levels and sequences of reads and writes of any size",
     "The test covers one buffer of a fixed size with a dozen of operations.",
     "ring/buffer.go",
     [{"name": "read and write positions with wrap-around", "where": "ring/buffer.go"}],
     "runtime monitor: model of a bounded queue compared after each operation (exhaustive for small sizes)",
     "Exhaustive over pairs of operations in every reachable position for sizes up to the bound; random beyond.")

# --- jitter buffer

prop("J01", "Jitter buffer delivers whole frames in order, each packet at most once",
     """Samples of a jitter buffer consist of packets that were pushed, unmodified and with their receive times; each is a whole frame by the depacketizer: it starts at a frame start, ends at a frame end,
     has no gaps in sequence numbers and nothing of another frame.
     Packets are delivered in the sequence order (with 16-bit wrap-around) and never twice, however they were lost, duplicated, reordered or delayed, and pure padding packets are never delivered.""",
     "inputs histories fault_sequences",
     "all packet sequences: frame sizes, padding, sequence and timestamp wrap-around, loss, duplication, reordering, late packets, arbitrary sequence numbers",
     "The tests use fixed lists of packets with a few permutations.",
     "jitter/buffer.go jitter/packet.go",
     [{"name": "sorted list, discontinuity flags, depacketizer boundaries", "where": "jitter/buffer.go push, pop, dropIncompleteExpired"}],
     "runtime monitor: order, uniqueness and integrity checker over delivered samples",
     "Two workloads: realistic networks (with an exact model) and hostile sequence numbers (invariants only).")
prop("J02", "Jitter buffer delivers as soon as possible and waits no longer than latency",
     """A frame is delivered at once when all of its packets are there and nothing before it is missing; otherwise it waits for the missing packets,
     but only until the latency since the arrival of the first buffered packet: then incomplete frames are given up on and complete ones are delivered.
     This holds after changes of the latency and for jumps of sequence numbers, a flush returns everything that is complete at once, and when no packets come for the latency the buffer is empty.""",
     "schedules histories inputs",
     "all arrival times relative to the latency, losses at every place of a frame, latency changes, flushes, padding, sequence jumps",
     "The tests sleep in real time around a single expected deadline and do not cover combinations.",
     "jitter/buffer.go",
     [{"name": "timer on the head of the list, expiration of incomplete heads", "where": "jitter/buffer.go"}],
     "runtime monitor: exact delivery times in virtual time against a reference model",
     "The reference model is a second implementation of the delivery rule; it was cross-checked against the statement by the fault-seeded runs.")
prop("J03", "Jitter buffer accounts for each packet and reports losses",
     """Every pushed packet is counted exactly once as delivered, dropped, padding or still buffered, the counter of lost packets equals the gaps in sequence numbers that were given up on,
     and the loss ratio follows from these counters.
     When losses or drops change, the callback gets the final values, which never go back.""",
     "inputs histories fault_sequences",
     "all packet sequences and arrival times, with flushes and concurrent statistics readers",
     "Tests check counters of a few fixed sequences.",
     "jitter/buffer.go",
     [{"name": "counters updated on each push, pop and drop", "where": "jitter/buffer.go Stats"}],
     "runtime monitor: conservation equations and reference counters after each operation",
     "Counters are compared after every operation in virtual time.")

prop("J04", "Jitter buffer can be used and closed concurrently",
     """Packets may be pushed by several goroutines while others flush, change the latency, read statistics and close the buffer, without data races or deadlocks: callbacks never run in parallel,
     frames stay whole, ordered and unique, snapshots of counters are consistent and never go back.
     After Close the goroutine of the buffer ends, and nothing is delivered by timers or Close itself; closing twice is harmless.""",
     "schedules histories",
     "all interleavings of pushes, timers, flushes, latency changes, statistics and Close",
     "Tests use the buffer from one goroutine.",
     "jitter/buffer.go jitter/packet.go",
     [{"name": "one lock around the list, the pool and counters", "where": "jitter/buffer.go"}],
     "race detector + invariant monitor in callbacks, goroutine leak detection in virtual time",
     "Interleavings are sampled.")

# --- media writers

prop("F01", "Re-framing neither loses, duplicates nor reorders samples",
     """A writer that re-frames audio passes on exactly the samples it got, in order, in frames of the requested size, each as soon as it is complete; only the last frame, sent on close, may be shorter.
     Errors of the next writer are returned and don't hold back the frames that follow, it is closed exactly once and never written after that, for 16-bit samples as well as for encoded bytes.""",
     "inputs histories fault_sequences",
     "all frame sizes, sequences of write sizes (including empty) and failures downstream",
     "There is a single test with two sizes and no failures.",
     "media.go buffers.go",
     [{"name": "accumulation buffer", "where": "buffers.go FullFrames"}],
     "runtime monitor: frames at the boundary against a reference splitter",
     "Random histories with failure injection.")
prop("F02", "A media pipe moves each element exactly once and never blocks after close",
     """Elements written to a pipe are read exactly once and in order, for any sizes of writes and read buffers; a write returns only after all of its elements were read (or with an error), and a read
     touches only the part of the buffer it reports.
     Closing either side unblocks the other one with the given error (or end of file), also for later calls, while a side that was closed itself gets the closed pipe error, and concurrent writers are never interleaved within a write.""",
     "schedules histories inputs",
     "all interleavings of readers, writers and closes; all chunk and buffer sizes",
     "The tests use one reader, one writer and equal sizes.",
     "pipe.go",
     [{"name": "rendezvous channels and close error", "where": "pipe.go"}],
     "race detector + exactly-once/order checker, deadlock detection in virtual time",
     "Interleavings are those produced by the scheduler with injected delays.")
prop("F03", "Switching the destination of a stream is atomic",
     """A switch writer sends each frame to exactly one writer: the one attached at that moment, or to nobody if there is none; operations are linearizable.
     Each replaced writer is returned by exactly one swap (never closed by the switch) and the last one is closed by Close exactly once; the sample rate can be set only once and attached writers are converted to it.""",
     "schedules histories",
     "all interleavings of swaps, writes, reads of the current writer and closes; all sample rates",
     "No test covers the switch.",
     "media.go",
     [{"name": "atomic pointer and rate", "where": "media.go SwitchWriter"}],
     "race detector + linearizability checker (porcupine) over recorded histories",
     "Recorded histories of 2-4 goroutines, decided exactly per history.")
prop("F04", "Fan-out, file, dump, frame and media sample writers keep data intact",
     """Every writer of a fan-out gets every frame in order even if others fail, and all of them are closed; the error of one is returned.
     What file, dump, frame, buffer and media sample writers produce is exactly what was written (little-endian for PCM files, the right duration for media samples), a short or failed file write or close is always reported, and nothing is lost by closing.""",
     "inputs fault_sequences histories",
     "all frame sizes and counts, failing writers, files that fail at any byte or on close",
     "Tests cover one happy path of a file writer.",
     "media.go dump.go pcm.go buffers.go",
     [{"name": "buffered file writer flushed on close", "where": "media.go, dump.go"}, {"name": "error joining", "where": "media.go MultiWriter"}],
     "runtime monitor: byte-exact comparison at the boundary with fault injection",
     "Faults are injected at random bytes and calls.")
prop("F05", "Mono and stereo conversion is exact for all sample values",
     """Each mono sample of a downmix is the average of left and right (rounded towards zero), for all values and without overflow, and an upmix repeats the sample in both channels, so that mono → stereo → mono is an identity.
     Only the requested part of the destination is written, the source isn't modified and too small destinations are rejected; clearing a frame silences each of its samples.""",
     "inputs",
     "all pairs of 16-bit samples, all lengths, destinations larger or smaller than required",
     "Tests convert a few small positive values.",
     "pcm.go media.go",
     [{"name": "32-bit arithmetic", "where": "pcm.go MonoToStereo, StereoToMono"}],
     "runtime monitor: exhaustive comparison of values with 32-bit reference arithmetic",
     "All mono values; all pairs of values in the thorough tier, 65536×64 in the quick one.")
prop("F06", "Writers neither modify nor retain the buffers of their callers",
     """A caller of any writer (re-framing, resampling, codecs, files, WebM, mixer inputs, packet writers and recorders, jitter handlers) may reuse or overwrite its buffer (and packet header) as soon as the write returns: the result is the same as with a fresh buffer for each write.
     The contents of the buffer are never changed by the write.""",
     "inputs histories",
     "all writers and their compositions, buffer sizes and reuse patterns",
     "Tests use a new buffer for each write and never overwrite it.",
     "media.go buffers.go resample.go g711/g711.go g722/g722.go opus/opus.go webm/writer.go mixer/mixer.go rtp/media.go rtp/jitter.go jitter/buffer.go dtmf/dtmf.go",
     [{"name": "copy on write", "where": "buffers.go, resample.go, rtp/jitter.go, dump.go"}],
     "runtime monitor: twin executions with fresh and scribbled buffers, write protection of arguments by comparison",
     "Each stage is run twice on the same data; the second run overwrites the buffer right after each write.")
prop("F07", "Playback is paced by frame duration and stops promptly",
     """Playback of recorded frames writes each frame once, in order, one per frame duration, and tones are generated for exactly their durations and volumes.
     Both return as soon as the context is cancelled or the writer fails, with that error, and write nothing afterwards.""",
     "schedules inputs fault_sequences",
     "all frame durations and counts, slow and failing writers, cancellation at any time",
     "Tests play a short file without checks of timing or cancellation.",
     "media.go tones/tones.go",
     [{"name": "ticker", "where": "media.go PlayAudio, tones/tones.go Play"}],
     "runtime monitor: schedule checker in virtual time",
     "Exact times in virtual time.")

prop("F08", "Built-in sounds are read whole, in full frames",
     """Reading of an Ogg audio file of the expected format returns every sample that the file contains, exactly once and in order, within one unit of rounding, whatever its page and packet sizes.
     The samples are split to frames of the exact frame size, of which only the last may be shorter.
     A file with another sample rate or number of channels is never accepted.""",
     "inputs",
     "the built-in sounds and files with other rates and repeated, dropped, cut or damaged pages",
     "Tests play one built-in file and do not check what was read.",
     "res/embed.go",
     [{"name": "reader", "where": "res/embed.go ReadOggAudioFile"}],
     "runtime monitor: differential, an independent loop over the Ogg decoder",
     "Mono files only.")

prop("F09", "Dumps are exact copies and do not alter the streams",
     """When dumps of media are enabled, each dump file holds exactly the frames that passed its point, in order and complete after close, under a name with the sample rate and format.
     The stream itself is delivered and closed the same way as without dumps.""",
     "inputs configurations",
     "all dump points (resampler, codec in and out, RTP payloads in and out), random frames and rates",
     "Tests never enable dumps.",
     "dump.go resample.go rtp/codecs.go g722/g722.go",
     [{"name": "dump writer", "where": "dump.go DumpWriter"}],
     "runtime monitor: files on disk compared with frames recorded at the boundary",
     "RTP input dumps are checked as a prefix, since their handler can not be closed.")

# --- resampling

prop("R01", "Resampling preserves duration, whatever the split of the input is",
     """For any input length and pair of sample rates, the total number of output samples after close equals the input length times the ratio of rates, rounded down, nothing is lost or added at the end,
     and equal rates pass the samples unchanged.
     The result doesn't depend on how the input was split to writes, frames of one duration come out as frames of the same duration (except the last) without more than a bounded lag, an error of the destination is returned from the write or close that it happened in, without affecting other samples, and the destination is closed once.""",
     "inputs histories fault_sequences",
     "all pairs of rates, input lengths and splits to writes (single samples to seconds), failing destinations",
     "Tests convert a few files with fixed frames and compare with golden files.",
     "resample.go resample_soxr.go media.go",
     [{"name": "native stream converter fed until all input is consumed and flushed on close", "where": "resample_soxr.go"}],
     "runtime monitor: conservation of duration, twin runs with different splits",
     "Tolerances: ±2 samples, ±2 LSB of dither; soxr is trusted for its filter.")
prop("R02", "Resampled audio is the same signal",
     """Tones and their sums within the band of both rates come out with the same frequency, phase and level, and low distortion; constants and silence stay as they are, and full scale signals don't wrap around.
     Signals above the band of the destination are suppressed.""",
     "inputs",
     "all pairs of rates, frequencies, levels and splits of the input",
     "Tests compare one file with golden output for two rates.",
     "resample.go resample_soxr.go",
     [{"name": "soxr with 16-bit interleaved input and output", "where": "resample_soxr.go"}],
     "runtime monitor: analytic oracle (ideal signal at the destination rate)",
     "Distortion limits have a margin over the measured quality of the library.")
prop("R03", "Native resampler handles are created, used and released exactly once",
     """Each native converter is released exactly once, by close or by the garbage collector, and never used after that, also when closed twice, closed during a write, abandoned or after native failures.
     Failures of native calls and invalid rates are reported as errors, without crashes, and a closed converter rejects writes.""",
     "histories schedules fault_sequences",
     "all lifetimes: closed, abandoned, used after close, concurrent close and write, native errors at each call",
     "No test closes a resampler twice, abandons it or fails a native call.",
     "resample_soxr.go resample.go",
     [{"name": "cleanup on garbage collection and lock around the handle", "where": "resample_soxr.go"}],
     "LD_PRELOAD monitor of each native handle (life cycle automaton) with fault injection",
     "The monitor sees all calls of libsoxr in the process; memory errors inside of libsoxr itself are out of scope.")

prop("N01", "Native audio code never reads or writes memory outside of the buffers it gets",
     """Each region of memory that is given to the native resampler and to the native Opus codec, as input, output or state, lies within a live allocation of the caller for its whole size,
     and the native code reports no more data consumed or produced than was given.
     This holds for buffers of exactly the size of the data, for all sizes of writes, one-shot conversions to any spare capacity, flushes, invalid frames and truncated or corrupt packets, and in parallel streams.""",
     "inputs histories",
     "all sizes of inputs and outputs, rates, splits to writes, frames and packets of all sizes, channel changes, corrupt packets, parallel use",
     "Reads and writes just outside of a buffer are mostly harmless by chance, and unit tests without a sanitizer pass.",
     "resample_soxr.go resample.go opus/opus.go",
     [{"name": "sizes and pointers passed to soxr_process", "where": "resample_soxr.go Resample"},
      {"name": "decoder buffers by the number of channels", "where": "opus/opus.go resetForSample"}],
     "address sanitizer build with an LD_PRELOAD monitor that checks each region before the native call",
     "libsoxr and libopus aren't instrumented: their own accesses to memory that they allocated aren't checked, only the regions that they are given.")

prop("P01", "Long calls run in bounded memory, and closed parts give everything back",
     """However long a stream is, the live Go heap, native heap, goroutines and open files that it needs don't grow with its length, for each component: re-framing, resampling, codecs, files, switches, pipes,
     mixers with inputs that come and go, jitter buffers on bad networks, RTP and SRTP sessions, tones and DTMF, also with destinations that fail.
     Nothing accumulates either when components are created, used and closed again and again, or when calls are negotiated.""",
     "histories inputs",
     "long streams and many lives of each component, with frames of mixed sizes, losses, padding, reordering, errors of destinations, channel changes",
     "A test is too short to notice a few bytes that are kept per frame or per call.",
     "buffers.go resample_soxr.go media.go pipe.go jitter/buffer.go jitter/packet.go mixer/mixer.go rtp/session.go rtp/mux.go srtp/srtp.go opus/opus.go webm/writer.go sdp/offer.go",
     [{"name": "pool of packets", "where": "jitter/packet.go newPacket, free"},
      {"name": "buffers that are compacted after each write", "where": "buffers.go flush, resample_soxr.go flush"},
      {"name": "goroutines ended by close", "where": "mixer/mixer.go, jitter/buffer.go, srtp/srtp.go"}],
     "runtime monitor of live heap (Go and native), goroutines and open files after collections, over periods of long runs",
     "Growth slower than about ten bytes per step, or memory that is bounded by the number of RTP sources of one session, isn't reported.")

# --- codecs

prop("C01", "G.711 codecs follow the standard for all values",
     """Both laws decode each code to the value of the standard; each sample is encoded to a code that is nearest to it within the standard's tie rules, monotonically, and re-encoding a decoded value is stable.
     Streaming encoders and decoders convert each frame exactly, return errors of the destination, close it once and convert sample rates when they differ.""",
     "inputs fault_sequences",
     "all 65536 samples and 256 codes of both laws, all frame sizes, failing destinations",
     "Tests compare a few vectors per law.",
     "g711/g711.go g711/alaw.go g711/ulaw.go",
     [{"name": "tables and bit arithmetic", "where": "g711/alaw.go, g711/ulaw.go"}],
     "runtime monitor: exhaustive comparison with the formulas of the standard",
     "Exhaustive on values; random on frames.")
prop("C02", "G.722 streams are continuous over frames",
     """Encoding or decoding a stream in frames of any sizes gives the same result as processing it at once: no samples are lost or repeated and the state is continued between frames, at 16 kHz and 8 kHz.
     Streams don't affect each other, and tones survive a round trip.""",
     "inputs histories schedules",
     "all splits of a stream to frames (even, odd, empty), several streams at once",
     "There are no tests of G.722 in the repository.",
     "g722/g722.go",
     [{"name": "codec state per stream", "where": "g722/g722.go"}],
     "runtime monitor: twin run of the reference codec over the whole stream",
     "The underlying G.722 library is trusted as a reference for a single run.")
prop("C03", "Opus decoding yields all audio of each packet and survives corruption",
     """Every valid packet of any duration (2.5 to 120 ms) and channel layout is decoded to its full duration in the requested number of channels, equal to the reference decoder, also when the stream switches between mono and stereo.
     Empty packets produce nothing, a few corrupt packets in a row are skipped but more are reported, corruption never crashes the process nor produces audio, and errors of the destination are returned; encoded audio survives a round trip and frames of invalid size are rejected.""",
     "inputs histories fault_sequences",
     "all packet durations, rates, channel layouts and switches, corrupt and random packets at any position",
     "There are no tests of Opus in the repository.",
     "opus/opus.go",
     [{"name": "decoder per channel layout, buffer for the longest packet, error counter", "where": "opus/opus.go"}],
     "runtime monitor: reference decoder fed with the same packets, hostile packets",
     "libopus is trusted as the reference; a new decoder at layout switches is accepted as the design.")
prop("C04", "Codec registry lookups agree with what is registered and enabled",
     """Codecs are found by name in any case and by static payload type exactly if they were registered, for all payload types, enabling and disabling affects exactly the named codec (nil never is enabled), and lists contain each codec once.
     Listeners see each registered codec exactly once, no matter when they were added.""",
     "inputs histories",
     "all sequences of registrations, enabling, disabling and lookups, all 256 payload types, names in any case",
     "Tests look up two codecs.",
     "codecs.go rtp/codecs.go",
     [{"name": "global lists updated at registration", "where": "codecs.go, rtp/codecs.go"}],
     "runtime monitor: model of the registry",
     "Registry is global: histories continue in one process.")

# --- RTP

prop("T01", "Sent RTP packets have consecutive sequence numbers",
     """Packets of all streams that share a writer leave it one at a time with one random source identifier and consecutive 16-bit sequence numbers, also with failed writes in between and with concurrent senders.
     The payload, type and marker of each packet are those of one write, and failures are returned to the caller that made it.""",
     "schedules histories fault_sequences",
     "all interleavings of streams and events, failing transports, wrap-around of sequence numbers",
     "Tests send a dozen of packets from one goroutine.",
     "rtp/rtp.go rtp/media.go",
     [{"name": "lock around the shared header", "where": "rtp/rtp.go SeqWriter"}],
     "race detector + sequence checker on the transport",
     "Wrap-around is reached in dedicated runs of 66000 packets.")
prop("T02", "RTP timestamps advance with media and stay aligned between streams",
     """A stream's timestamp advances by the frame duration per packet (and by requested delays), repeated packets of one event carry the same timestamp, also when frames of one stream come from several goroutines. A failed write doesn't advance it.
     A stream that lags more than 500 ms behind others of the same writer is moved to their time, and never goes back; a reset sets the exact timestamp, and it all works across the wrap-around of 32 bits.""",
     "histories schedules fault_sequences",
     "all sequences of writes, repeated writes, delays and resets over several streams, all frame durations, concurrent streams, wrap-around of timestamps",
     "Tests check one stream with a fixed sequence.",
     "rtp/rtp.go",
     [{"name": "shared maximal timestamp", "where": "rtp/rtp.go Stream"}],
     "race detector + reference clock model",
     "A third of the histories and a half of the concurrent runs wrap around 32 bits.")
prop("T03", "RTP mux routes each packet to its handler exactly once",
     """Each packet is passed unmodified to the handler registered for its payload type, or to the default one, exactly once, and its error is returned; without both, it's ignored.
     Registrations may happen at any time, also concurrently and from handlers, and are linearizable with packets.""",
     "histories schedules inputs",
     "all payload types, sequences of registrations and packets, all interleavings",
     "There are no tests of the mux.",
     "rtp/mux.go",
     [{"name": "lock around the table, not held in handlers", "where": "rtp/mux.go"}],
     "race detector + linearizability checker (porcupine)",
     "Histories of 4 goroutines, decided exactly per history.")
prop("T04", "RTP session delivers packets of each source to its stream, intact and in order",
     """Each source is accepted once; its packets, including the first one and their header extensions, are read from its stream in order, unmodified and at most once, and none are lost while less than 10 wait to be read, however slow other streams are.
     Malformed and oversized packets are ignored, padding is not delivered; concurrent writers send each packet intact and get its size.
     Closing the session ends all blocked and future reads and accepts, even while packets are received; queued packets are read before the end, and nothing after it.""",
     "schedules inputs histories fault_sequences",
     "all packet schedules and reader speeds, numbers of sources and readers, malformed and oversized packets, Close at any point",
     "There are no tests of sessions.",
     "rtp/session.go",
     [{"name": "queue per source, direct copy to a waiting reader under the lock", "where": "rtp/session.go"}],
     "race detector + order/exactly-once/integrity checker; deadlock detection in virtual time",
     "In-memory connection for exact histories, loopback UDP sockets for a part.")
prop("T05", "SRTP session protects packets and rejects everything that is not authentic",
     """For each supported profile, with or without a key identifier, packets arrive at the other side unmodified (including header extensions, but without padding), and fit a read buffer with space just for the payload; they are sent encrypted with the authentication tag, and each side uses its own key.
     Packets that were tampered with, replayed or made with another key are never delivered and don't disturb others; offered keys have the right sizes and are never repeated.
     Closing the session ends all blocked reads and accepts, even if there are streams that nobody accepted.""",
     "inputs fault_sequences schedules configurations",
     "all profiles and key identifiers, packet sizes, header extensions, losses, reordering, replays, bit flips, forgeries; Close at any point",
     "There are no tests of SRTP sessions.",
     "srtp/srtp.go",
     [{"name": "SRTP session of the pion library and a copy of the header before its buffer is reused", "where": "srtp/srtp.go"}],
     "race detector + authenticity/integrity monitor over a hostile network in virtual time",
     "Cryptography of the library is trusted beyond the observed attacks. Unauthenticated packets may still announce a (silent) stream.")
prop("T06", "RTP jitter handler passes each packet once, in order and in time",
     """The handler behind a jitter buffer gets packets in order, unmodified, at most once, none later than the latency after it and all packets before it arrived; packets delayed by less than the latency are never lost.
     The receive buffers may be reused right after the call, errors of the handler are returned, losses are reported, and close is passed on once, after which nothing is handled from the buffer.""",
     "schedules inputs fault_sequences",
     "all networks: loss, duplication, delays below and above the latency, failing handlers, reused buffers",
     "There are no tests of this handler.",
     "rtp/jitter.go jitter/buffer.go",
     [{"name": "clone of packets before they're buffered", "where": "rtp/jitter.go"}],
     "runtime monitor: delivery checker in virtual time with scribbled buffers",
     "Latency is the fixed 60 ms of the handler.")
prop("T07", "UDP port allocation finds every free port of the range, and only those",
     """Listening with a port range binds a free port in the range on the given address whenever there is one, for the plain and the configured listener, IPv4 and IPv6; each port is tried at most once, and when all are busy the failure is reported as such.
     Any other error is returned at once; an empty range fails and a missing one means any port.""",
     "inputs configurations fault_sequences schedules",
     "all ranges, sets of busy ports, bind errors, address families, concurrent allocations",
     "Tests open a few ports.",
     "rtp/listen.go",
     [{"name": "random start and wrap-around over the range", "where": "rtp/listen.go bindRange"}],
     "runtime monitor: exhaustion of real port ranges and injected bind errors",
     "Real sockets on private loopback addresses.")
prop("T08", "Audio codecs over RTP: one packet per frame and back, receive loops end cleanly",
     """Encoding audio for RTP produces one packet of the negotiated type per frame, with timestamps at the codec's clock rate and the standard static payload types, and decoding them gives the audio back at the requested rate.
     A receive loop handles packets in order until the first error of the reader or handler, returns it and closes the handler exactly once.""",
     "inputs fault_sequences histories",
     "all registered codecs, signals, payload types, failures of the transport, the reader or the decoder",
     "Tests do not send audio through RTP codecs.",
     "rtp/codecs.go rtp/media.go rtp/rtp.go",
     [{"name": "codec registration with clock rates", "where": "g711, g722, rtp/codecs.go"}, {"name": "HandleLoop", "where": "rtp/rtp.go"}],
     "runtime monitor: packet and audio checker over a recorded transport",
     "Audio is checked by the signal to noise ratio of a tone.")

# --- DTMF and tones

prop("D01", "DTMF writer plays each digit as standard tones and as telephone events",
     """Each digit of a string is played, in order, as 250 ms of the two standard frequencies with equal amplitudes followed by 250 ms of silence, in frames of 20 ms in real time at the rate of the audio writer; 'w' is a silent pause of 500 ms.
     Telephone events go with it in parallel: packets of one digit share its timestamp, grow in duration, only the first has a marker and the last ones are end packets, so that a receiver that decodes them gets exactly the digits that were sent.
     Either stream may be absent, and a failed write or a cancelled context stops the writer promptly with that error.""",
     "inputs fault_sequences configurations",
     "all strings of digits and pauses, sampling rates, presence of streams, initial timestamps, failing and slow writers, cancellation at any time",
     "Tests check the packets of one string and never analyze the audio.",
     "dtmf/dtmf.go tones/tones.go rtp/rtp.go",
     [{"name": "event packets and tone playback per digit", "where": "dtmf/dtmf.go Write"}, {"name": "tone generation", "where": "tones/tones.go"}],
     "runtime monitor: least-squares tone analysis of the audio and event-log checker of the packets in virtual time",
     "Strings of up to a dozen digits. Real time is virtual, so that pacing is checked exactly.")
prop("D02", "DTMF events: any payload decodes to what it says, and encodes back",
     """Telephone event payloads of at least 4 bytes decode to the event code, end flag, volume and duration that they carry, shorter ones are errors, and the digit is set for codes 0 to 15 only.
     An event given by its code or by its digit is encoded into 4 bytes which decode to the same event; digits that don't exist are not encoded as others.
     An RTP packet is reported as a new digit exactly when it has the marker.""",
     "inputs",
     "all payloads: all codes, flags, volumes, durations and lengths",
     "Tests decode a few payloads.",
     "dtmf/dtmf.go",
     [{"name": "payload encoding", "where": "dtmf/dtmf.go Decode, Encode, DecodeRTP"}],
     "runtime monitor: comparison with an independent decoder (RFC 4733)",
     "All codes, flags and volumes are enumerated, durations are sampled.")
prop("D03", "Generated tones are continuous in time, with exact frequency, volume and length",
     """A generated buffer is the sum of the sine waves of its frequencies at its start time, with the given peak amplitude, so that consecutive buffers continue without steps however they are split; the end time is returned.
     Playback of a list of tones writes frames of 20 ms in real time: each tone for its duration and volume, followed by its silence, in order, repeating the list for ever, until the context ends or a write fails.""",
     "inputs fault_sequences",
     "all frequencies, amplitudes, rates, times, splits, lists of tones, cancellation times and failing writers",
     "Tests write a file for listening.",
     "tones/tones.go",
     [{"name": "phase from the absolute time", "where": "tones/tones.go Generate"}, {"name": "playback loop", "where": "tones/tones.go Play"}],
     "runtime monitor: reference oscillator and least-squares tone analysis of played frames in virtual time",
     "Amplitude tolerance of a few units for the rounding of samples.")

# --- files

prop("W01", "WebM recordings contain each sample once, with its time, and end properly",
     """A WebM file has one audio track with the codec, rate, channels and frame duration it was created with, and exactly one block for each written sample, in order, with unmodified data and the time of its start rounded to milliseconds.
     Sample data may be reused after the write, and the file is closed exactly once, also with concurrent or repeated closes, after which writes fail.
     Errors of the file are returned from a write or from Close, never crash the process, and what was written before them is readable.""",
     "inputs histories fault_sequences schedules",
     "all codecs, rates, channels, frame durations, lengths of recordings (also across clusters), and failures of the file at any byte or on close",
     "Tests write a file, and don't read it.",
     "webm/writer.go",
     [{"name": "timestamps from the number of frames", "where": "webm/writer.go WriteSample"}, {"name": "error collection of the block writer", "where": "webm/writer.go"}],
     "race detector + independent EBML parser over recorded files with failure injection",
     "Recordings of up to 70 s of frames, written from one goroutine. Structure of the file is judged by an own parser, not by players.")

# --- SDP

prop("S01", "Any SDP is parsed without a crash into what it says, or rejected",
     """Every valid description gives its connection address and port and all codecs, with their payload types, that are registered and enabled, in its order, the telephone-event type and crypto keys, and unknown or disabled codecs and attributes are skipped.
     Arbitrary input is either rejected with an error or gives a description with a valid address, payload types, key sizes and encryption that can be selected from, answered and written again, without a panic and without a change of the input.
     Descriptions without an audio section or an address are rejected.""",
     "inputs configurations",
     "all texts: valid descriptions with any codecs, attributes, addresses and letter case; any mutations of them; all sets of enabled codecs",
     "Tests parse a few fixed descriptions.",
     "sdp/offer.go",
     [{"name": "parser of the audio section", "where": "sdp/offer.go Parse, ParseMedia"}],
     "runtime monitor: generator with known contents and invariants over mutated descriptions",
     "Mutations are random and structural; TTL suffixes of IPv4 addresses are left out.")
prop("S02", "Our offers and answers say exactly what is enabled, and can be parsed back",
     """An offer lists each enabled codec exactly once by priority, each with its own payload type (the static one, or a dynamic one above 100), its rtpmap, and the DTMF type with its fmtp; its address, family, port, protocol and crypto attributes match the parameters, and session IDs are not repeated.
     An answer lists the selected codec with the payload type of the offer, and the DTMF type if it was offered, keeps the session, and never has a disabled codec.
     Both give the same contents when they are parsed back.""",
     "inputs configurations",
     "all sets of enabled codecs, addresses of both families, ports, encryption modes and offers",
     "Tests compare a few written descriptions.",
     "sdp/offer.go codecs.go",
     [{"name": "writer of the audio section", "where": "sdp/offer.go NewOffer, OfferMedia, Answer, AnswerMedia"}],
     "runtime monitor: independent line reader and round trip of written descriptions",
     "Codecs that are registered in the repository, and a few more for the check.")
prop("S03", "Both parties of an offer and answer select the same, best common codec",
     """Of the codecs that are both in an offer and enabled, the one with the highest priority is selected, the first one of equal, and of an answer the first one; the payload type is the one of the description, and no codec or a disabled one is an error, never a wrong choice.
     After the exchange of an offer and an answer both parties have the same codec, payload types for audio and DTMF, encryption profile and matching addresses.""",
     "inputs configurations",
     "all descriptions of a foreign party, all sets of enabled codecs at both sides, orders, priorities and repeated codecs",
     "Tests check a few fixed descriptions.",
     "sdp/offer.go codecs.go",
     [{"name": "selection by priority", "where": "sdp/offer.go SelectAudio"}, {"name": "application of an answer", "where": "sdp/offer.go Apply"}],
     "runtime monitor: reference selection and agreement of both parties",
     "Encryption is off or the same at both sides here; see S04.")
prop("S04", "SDP encryption: both parties get matching keys, or the call is refused",
     """When an encrypted call is negotiated, both parties have the same profile, each one's local key and key identifier is the other's remote one, they are the ones of the same crypto attribute, and keys and salts have exactly the size of the profile.
     A call that requires encryption is refused if the other side has no supported attribute, one without encryption never has keys, and an optional one uses it whenever the other side offers it.
     Attributes with unknown profiles, or invalid keys are never used, nor are those with mandatory session parameters or several keys, and valid ones with key identifiers, lifetimes and optional parameters are.""",
     "inputs configurations",
     "all combinations of encryption modes, sets, orders and contents of crypto attributes",
     "Tests parse a few attributes; no test combines the modes of two parties.",
     "sdp/offer.go srtp/srtp.go",
     [{"name": "choice of a profile and keys", "where": "sdp/offer.go SelectCrypto"}],
     "runtime monitor: reference negotiation and key comparison between parties",
     "Session parameters are allowed after a lifetime or MKI only where the parser supports them.")

# --- everything together

prop("X01", "In a call built of all parts, everyone hears the others, safely",
     """In conferences of participants that negotiate codecs and encryption by SDP, and talk through RTP sessions, jitter buffers, decoders, mixers and encoders over a network with limited jitter, each participant continuously hears the others at their volume, doesn't hear themselves, stops hearing those who left, and DTMF digits arrive as dialed.
     Meanwhile statistics and descriptions of all parts may be read at any time without data races.
     When everything is closed, no goroutine stays behind.""",
     "schedules configurations histories",
     "all codecs and encryption modes, numbers of participants, jitter of the network, participants that leave and return, dialed digits",
     "No test connects the parts.",
     "mixer/mixer.go jitter/buffer.go rtp/rtp.go rtp/media.go rtp/mux.go rtp/session.go rtp/jitter.go srtp/srtp.go sdp/offer.go dtmf/dtmf.go media.go buffers.go resample.go",
     [{"name": "composition of writers", "where": "media.go, rtp/media.go, codecs"}],
     "race detector + tone analysis of what each participant hears in virtual time, goroutine leak detection",
     "Each participant is a pure tone, so that all pairs are told apart; conferences of 2 to 4.")

prop("X02", "Writers which guard their state can be shared by goroutines",
     """Frame, buffer and resampling writers (and chains of them) may be written to by several goroutines at once: each write is taken as a whole, in the order of its goroutine, nothing is lost, repeated or mixed into another write, and there are no data races.
     Calls of the next writer never overlap, the caller may reuse its frame right after the call, and a Close in the middle of writes is passed on once.""",
     "schedules histories",
     "all interleavings of writers and Close, numbers of goroutines, sizes of writes and frames, pairs of sample rates",
     "Tests use writers from one goroutine.",
     "buffers.go pcm.go resample_soxr.go resample.go",
     [{"name": "a lock in each writer", "where": "buffers.go frameBuffer, pcm.go bufferWriterPCM16, resample_soxr.go resampleWriter"}],
     "race detector + offline decoding of the output to whole writes of each goroutine, overlap monitor at the destination",
     "Interleavings are sampled by the scheduler. Writers of pipes, mixers, WebM, RTP streams and switches are shared by goroutines in F02, M04, W01, T02 and F03.")

prop("X03", "Any chain of writers carries audio, errors and Close from end to end",
     """However re-framing, resampling, fan-out, switch, file, pipe, no-op close, codec and RTP writers (with a mux or a jitter buffer) are chained, a tone written at the sample rate that the first one announces comes out of every branch with its frequency, level and duration, in frames of any sizes.
     The announced rate of each writer is that of the frames it expects, the failure of the last writer is returned to the one who writes to the first, and frames of the caller are left unmodified.
     Close of the chain (by its parts, where one doesn't own the next) flushes and closes each end exactly once, and nothing is written to it after that.""",
     "configurations inputs",
     "random chains of up to six writers of all kinds, sample rates, sizes of writes, tones, failures of the destination",
     "Tests connect two writers at most, at the rates of the fixtures.",
     "media.go buffers.go resample.go pipe.go pcm.go rtp/codecs.go rtp/rtp.go rtp/mux.go rtp/jitter.go g711/ulaw.go g711/alaw.go g722/g722.go opus/opus.go",
     [{"name": "composition of writers", "where": "constructors of writers which wrap others, and convert the rate if it differs"}],
     "online monitors at each end of randomly composed chains: tone analysis (least squares), duration, close and error propagation",
     "Mono only; a pipe reports errors of its reader later, so failures aren't injected into chains with pipes.")
