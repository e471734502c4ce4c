#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: python3 tools/props.py writes it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("C01", "Ring buffer is a bounded drop-oldest FIFO",
  "A ring buffer of fixed size holds the most recent elements in the order they were written: single and bulk reads, pops and peeks return them first-in first-out, a push or bulk write that does not fit discards exactly the oldest elements, and the try-variant of push refuses instead. Its reported length always equals the number of elements held and never exceeds its size; a bulk write reports every element as written; a bulk read returns as many elements as are held and requested, and end-of-data only when the buffer is empty.",
  ["histories", "inputs"], "every sequence of pushes, pops, peeks, bulk reads and bulk writes (of any length, including larger than the buffer) on a buffer of any size >= 1",
  "The tests run a few fixed sequences on one size; wrap-around, full and overwrite cases depend on the exact index positions reached by the history.",
  ["ring/buffer.go"], [("Write drop-oldest arithmetic", "ring/buffer.go:Write"), ("Read across the wrap", "ring/buffer.go:Read"), ("full flag", "ring/buffer.go:Push,TryPush,TryPop")])

p("C02", "Mixer output is the clamped sum of its inputs' buffered audio",
  "Every mixed frame equals, sample by sample, the sum of the inputs' contributions clamped to +-32767. Each input contributes the samples written to it in order and at most once: it starts only once more than half of its configured number of frames (frames/2+1) is buffered, then contributes up to one frame per mix until it is found empty, after which it has to refill to that level again; writing more than its buffer holds loses exactly the oldest samples. Inputs are independent of each other, and a removed or closed input contributes nothing more.",
  ["histories", "inputs", "configurations"], "every history of input creation, writes of any size and amplitude, mixes and removals, for every number of inputs and buffer depth",
  "Tests drive the internal mix step with a few fixed write patterns; the content of a frame depends on the whole history of fill levels of all inputs.",
  ["mixer/mixer.go", "ring/buffer.go"], [("buffering hysteresis", "mixer/mixer.go:readSample"), ("32-bit accumulation and clamping", "mixer/mixer.go:mixInputs,mixOnce"), ("drop-oldest on overflow", "mixer/mixer.go:WriteSample")])

p("C03", "Mixer keeps pace with the clock and delivers frames in order",
  "The mixer emits one frame per frame interval of elapsed time: when it is woken late (slow output, stalled scheduler) it emits at the next wake-up all frames that became due, with a quarter-interval tolerance, so the total keeps up with elapsed time; if more frames are due than an input can buffer it emits only that many and restarts its clock there. Each mixed frame reaches the output exactly once and in order, whether written directly or through the output channel of any depth, and an error from the output never stops the mixing.",
  ["schedules", "fault_sequences", "configurations"], "every pattern of output delays and output errors, every output-channel depth, and every interleaving of the mixing and writing goroutines",
  "The tests call the mix step by hand with fixed sleeps on the real clock, so lateness patterns and the channel hand-over are hardly sampled.",
  ["mixer/mixer.go"], [("catch-up arithmetic and reset", "mixer/mixer.go:mixUpdate"), ("output channel hand-over", "mixer/mixer.go:mixOnce,writer,start")])

p("C04", "Mixer inputs and Stop are safe under concurrency",
  "Inputs can be created, written, closed, removed and described (String), and the mixer stopped, from any number of goroutines while it is mixing: no call deadlocks, panics or races on memory, and the track counter equals the number of attached inputs whenever it is quiet. After Stop the mixer's goroutines end (once a pending output write returns), no input is handed out any more, and closing or writing to the remaining inputs stays harmless.",
  ["schedules", "configurations"], "every interleaving of the mixing ticker, the output goroutine, input writers, input removal and Stop",
  "Concurrent use is not tested at all beyond one happy-path run; a lost wake-up, leak or race needs a particular interleaving.",
  ["mixer/mixer.go"], [("input list lock", "mixer/mixer.go:NewInput,RemoveInput,mixInputs"), ("stop fuse and goroutines", "mixer/mixer.go:Stop,start,writer")])

p("C05", "Jitter buffer emits whole samples once, in order, unmodified",
  "Whatever order packets arrive in (the numbers buffered at a time spanning less than 3000), and however they are lost, duplicated or wrapped around the 16-bit sequence space, every group of packets handed to the consumer is one complete media sample: pushed packets with consecutive sequence numbers from a sample start to the next sample end (padding packets left out), unmodified and with their own arrival time. No sequence number is delivered twice, and samples come out in strictly increasing sequence order, also across a forward jump of the numbers by 3000 to 32767 in a stream arriving in order.",
  ["histories", "inputs", "schedules"], "every arrival order of in-order, lost, late, duplicated and padding packets of single- and multi-packet samples, with any starting sequence number and any arrival spacing",
  "The tests use a few hand-written orders and a random soak; the linked-list insertion logic has cases that only particular order/duplicate/wrap combinations reach.",
  ["jitter/buffer.go", "jitter/packet.go"], [("ordered insertion", "jitter/buffer.go:push"), ("completeness", "jitter/packet.go:isComplete"), ("sample extraction", "jitter/buffer.go:popSample")])

p("C06", "Jitter buffer delivers promptly and never waits past its latency",
  "Once the stream is running (its first sample was delivered), a complete sample is delivered in the very call that makes it complete and contiguous with the packets delivered or discarded before; a complete sample behind a gap is held back as long as the gap may still fill and delivered as soon as the configured latency has passed since it, and every sample still buffered ahead of it, began to arrive; packets of incomplete samples are discarded only after that latency. When time passes without any call the buffer acts on its own timer, so nothing stays buffered beyond the latency of what is ahead of it, including after the latency is changed; Flush delivers every complete sample and discards the rest at once, and where the numbers jump ahead (by 3000 to 32767) at the start of a sample, the samples after the jump do not wait for what lies between, in whatever order the packets of the first of them arrive, and a packet from before the jump that arrives after it still takes its place while older ones are buffered.",
  ["histories", "schedules"], "every arrival order and spacing of packets, every loss pattern, latency changes and flushes at any point, and every timer/caller interleaving",
  "Tests sleep on the real clock around a few fixed patterns; hold-back and expiry depend on the arrival times of all packets buffered.",
  ["jitter/buffer.go"], [("readiness and expiry", "jitter/buffer.go:popReady,dropIncomplete"), ("timer", "jitter/buffer.go:NewBuffer,UpdateLatency"), ("flush", "jitter/buffer.go:Flush")])

p("C07", "Jitter buffer statistics account for every packet",
  "On a stream that is running (its first sample was delivered), at any moment every pushed packet is counted in exactly one way: delivered, dropped (late, duplicate or part of an incomplete sample), still buffered (the reported size), or ignored padding; and the lost counter equals the number of sequence numbers skipped between consecutive removals of packets from the front of the buffer, except where the numbers jump ahead (by 3000 to 32767) at the start of a sample: nothing is lost there, even if that sample stays incomplete. Whenever a call or the timer changes the lost or dropped counter, the loss handler (if any) has been called with the resulting totals by the time it finishes, and it is never called with totals that differ from the statistics.",
  ["histories"], "every arrival order, loss, duplication, flush and expiry history, sequence jumps included",
  "Tests compare the counters for a few fixed histories only.",
  ["jitter/buffer.go"], [("counters", "jitter/buffer.go:push,popReady,dropIncomplete,Flush,popSample"), ("loss handler", "jitter/buffer.go:onPacketLoss")])

p("C08", "Jitter buffer is safe under concurrency and stops on Close",
  "Packets can be pushed, the buffer flushed, its latency changed, its size and statistics read and the buffer closed from any goroutines (closed from within its callbacks, too), concurrently with its own timer: nothing deadlocks, panics or races on memory, delivery callbacks never overlap and keep increasing sequence order, no packet is lost or delivered twice because of the interleaving, and what is delivered, counted and read is what some order of the calls gives. After Close the buffer's goroutine ends.",
  ["schedules"], "every interleaving of pushers, flush, latency update, statistics readers, Close and the expiry timer",
  "Unit tests push from one goroutine and only meet the timer interleavings the host scheduler happens to produce.",
  ["jitter/buffer.go"], [("buffer lock around callbacks", "jitter/buffer.go:PushAt,Flush"), ("timer goroutine", "jitter/buffer.go:NewBuffer"), ("close fuse", "jitter/buffer.go:Close")])

p("C09", "Pipe hands samples from writers to readers without loss",
  "Samples written into a pipe arrive at its readers complete, in order and exactly once, however write and read sizes differ: a write returns successfully only after all its samples were read (and does so whatever is closed from then on), writes of different goroutines are never interleaved, and a read never returns more than one write's remainder. Closing either end unblocks every pending and future call: readers get the writer's close error (end-of-stream by default), writers get the reader's close error (closed-pipe by default), the side that closed itself gets closed-pipe, and the first close error given by an end is the one that sticks.",
  ["schedules", "inputs"], "every interleaving of concurrent writers, readers and closers, and every combination of write and read sizes",
  "The pipe has no tests in the repository; rendezvous and close races are schedule dependent.",
  ["pipe.go"], [("rendezvous channels", "pipe.go:read,write"), ("close errors", "pipe.go:closeRead,closeWrite")])

p("C10", "Switch writer routes each sample to the attached writer only",
  "A sample written to a switch goes, once and unmodified, to the writer attached at that moment, or nowhere when none is attached or the switch is disabled; a write that starts after a swap, disable or close has returned obeys it. Every attached writer is given back exactly once, by the swap that replaces it or closed by the switch's close, under any concurrent swaps; a writer with another sample rate is attached through a resampler and the switch's sample rate can be set exactly once.",
  ["schedules", "histories"], "every interleaving and sequence of writes, swaps, enables, disables, closes and rate settings",
  "Not covered by any unit test; needs concurrent swaps and writes.",
  ["media.go"], [("atomic writer pointer", "media.go:SwitchWriter.Swap,Close,WriteSample"), ("rate CAS", "media.go:SetSampleRate")])

p("C11", "Full-frame buffering re-chunks audio without losing samples",
  "Audio written through the frame buffer in chunks of any size comes out as the same samples in the same order, cut into frames of exactly the configured size as soon as they are complete, with one shorter frame only at close. If the underlying writer fails on a frame the error is returned, only that frame is lost, and everything after it is still delivered, in order and once, by the later writes and a close that succeeds; close always closes the underlying writer and reports both errors.",
  ["inputs", "fault_sequences", "schedules"], "every sequence of chunk sizes, every frame size, every pattern of underlying write and close errors, and concurrent writers",
  "Tests use a couple of chunk sizes and no failing writer.",
  ["buffers.go"], [("flush with deferred compaction", "buffers.go:flush"), ("close", "buffers.go:Close")])

p("C12", "Resampling conserves duration, however the audio is chunked",
  "A resampling writer delivers, by the time it is closed, as many samples as the input duration is worth at the output rate (within a few samples), and the same audio whatever sizes the writes are cut into; it emits no audio ahead of its input, holds back only a bounded amount of it between writes, keeps constant and silent signals constant and silent, and closes the writer behind it exactly once. One-shot resampling appends to its destination and obeys the same, and equal rates pass samples through untouched.",
  ["inputs", "configurations", "fault_sequences"], "every pair of supported sample rates and every sequence of write sizes, including single samples and uneven chunks",
  "Tests resample fixed 20 ms frames between a few rates and look at signal quality; short and uneven chunks and the final flush are not exercised.",
  ["resample.go", "resample_soxr.go"], [("soxr output sizing and flush", "resample_soxr.go:Resample"), ("frame emission", "resample_soxr.go:flush,WriteSample,Close")])

p("C13", "RTP packets leave with gapless sequence numbers and one SSRC",
  "All streams created on one sequence writer, written from any goroutines, produce packets with one constant SSRC and version 2 whose sequence numbers start at 0 and increase by exactly one (modulo 2^16) in the order the packets reach the underlying writer, each packet carrying exactly the payload type, marker, timestamp and payload of one write. A packet the underlying writer refuses does not consume a sequence number or a timestamp step, its error reaches the caller, and the next packet takes its place.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of writes on any number of streams, every pattern of write errors, and the sequence wrap",
  "Tests write a few packets sequentially to an always-successful writer.",
  ["rtp/rtp.go"], [("header lock and increment after success", "rtp/rtp.go:WriteEvent"), ("stream payload", "rtp/rtp.go:writePayload")])

p("C14", "RTP stream timestamps advance steadily and stay in sync",
  "A stream starts at zero; on one stream a packet's timestamp exceeds the previous one's by exactly the packet duration, packets written at the current time share one timestamp, and delays advance it by exactly the requested amount. When several streams share a sequence writer, a stream that lags the furthest one by more than 25 of its packet durations jumps to the latest timestamp on its next new packet or delay and otherwise keeps its own; a stream's timestamp never goes backwards unless it is explicitly reset, and streams used from several goroutines get the timestamps that some order of the calls gives; a reset replaces the stream's own timestamp, from which its next packet goes on by the same rules.",
  ["histories", "schedules"], "every sequence of writes, writes-at-current, delays and resets over any number of streams with any packet durations, and concurrent writes on different streams",
  "Tests cover two streams and one catch-up; the result depends on the relative history of all streams.",
  ["rtp/rtp.go"], [("shared maximum timestamp", "rtp/rtp.go:CurTS"), ("follow-up packets", "rtp/rtp.go:writePayload,Delay,ResetTimestamp")])

p("C15", "RTP session delivers each SSRC's packets in order and intact",
  "A session hands out one read stream per SSRC, on the first packet carrying it, and the packets read from a stream are packets received for that SSRC: header and payload intact (payload cut to the reader's buffer), in arrival order, none twice, and none missing while the reader has fewer than ten unread packets. Packets that are malformed or larger than the MTU are skipped, and a failed read of the connection is reported by one accept, without affecting others, and a written packet goes out as exactly one datagram holding its header and payload.",
  ["schedules", "inputs"], "every arrival sequence of packets of several SSRCs, sizes and malformed datagrams, and every interleaving of the accepting goroutine with the stream readers",
  "The repository has no test of the session; the direct hand-over between the receiving goroutine and a waiting reader is a timing-dependent optimisation.",
  ["rtp/session.go"], [("zero-copy hand-over", "rtp/session.go:readStream.write,ReadRTP"), ("demultiplexing", "rtp/session.go:AcceptStream"), ("write", "rtp/session.go:WriteRTP")])

p("C16", "Closing an RTP session unblocks everyone",
  "Closing a session, at any moment and any number of times, completes and closes the connection once; every pending or later accept and read returns with an error or with a packet that had been received, and no goroutine stays blocked inside the session. An accept during which reading from the connection fails returns that error.",
  ["schedules", "fault_sequences"], "every interleaving of Close with accepting, reading and writing goroutines and packet arrivals, and connection errors at any point",
  "Not tested; a deadlock on close needs an unlucky interleaving of accept, read and close.",
  ["rtp/session.go"], [("close fuse vs receive lock", "rtp/session.go:Close,AcceptStream"), ("reader wake-up", "rtp/session.go:readStream.ReadRTP")])

p("C17", "SRTP session delivers what was sent, and only authentic packets",
  "Two SRTP sessions configured with mirrored keys, for every supported protection profile and with or without a master key identifier, deliver each RTP packet's header fields and payload exactly as written, per SSRC and in order, whatever the payload size that fits the reader's buffer. Packets that were altered, truncated, replayed or protected with other keys are never delivered, and do not disturb later ones; the payload never appears in clear on the wire and default profiles carry fresh keys of the right sizes. Closing a session ends every pending accept and read with an error, even while a stream waits to be accepted.",
  ["inputs", "configurations", "fault_sequences", "schedules"], "every profile and key-identifier setting, every header shape and payload size, and every single-bit alteration, truncation, replay or reordering of the packets on the wire",
  "One integration test sends a few packets between a session pair; tampering, header shapes and sizes are not enumerated.",
  ["srtp/srtp.go"], [("session adaptation", "srtp/srtp.go:readStream.ReadRTP,writeStream.WriteRTP"), ("profiles", "srtp/srtp.go:DefaultProfiles,Parse"), ("MKI", "srtp/srtp.go:MasterKeyIndicator")])

p("C18", "RTP mux routes packets by payload type",
  "A packet handed to a mux goes, once, with its header and payload, to the handler currently registered for its payload type, else to the default handler, else it is silently dropped; the handler's result is returned. Registering, replacing, unregistering (nil) and changing the default affect exactly the given type from then on, for every payload type 0-255, also while packets are being handled concurrently, and a handler may itself change the registrations; the mux can be described (String) at any time.",
  ["histories", "schedules", "inputs"], "every sequence of registrations and packets over all payload types, and every interleaving of registration and handling",
  "Not tested.",
  ["rtp/mux.go"], [("static and dynamic tables", "rtp/mux.go:Register,HandleRTP")])

p("C19", "RTP jitter handler and read loop forward packets faithfully",
  "Packets passed through the jitter handler reach the wrapped handler in sequence order, at most once, with their own header and payload even if the caller reuses its payload buffer after the call returns, packets behind a gap being released once they, and those still buffered ahead of them, have waited 60 ms; an error of the wrapped handler is reported by some later call and never blocks. The buffer options passed along take effect, all of them: a packet loss handler is told the totals of packets given up and of packets dropped (late or duplicate) whenever they change. The read loop hands every packet read to its handler in order, stops at the first read or handler error and returns it, and closes the handler exactly once in any case; closing the jitter handler closes the wrapped one.",
  ["histories", "schedules", "fault_sequences"], "every arrival order and spacing, every position of read and handler errors, and caller buffer reuse",
  "Not covered by unit tests.",
  ["rtp/jitter.go", "rtp/rtp.go"], [("jitter handler", "rtp/jitter.go:HandleRTP,handleRTP,Close"), ("read loop", "rtp/rtp.go:HandleLoop")])

p("C20", "SDP negotiation agrees on one audio codec, type, address and DTMF",
  "An answer to an offer selects the highest-priority enabled audio codec offered (the first listed among equals), under the payload type the offer gave it, keeps the offer's DTMF payload type (none if not offered), and an offer lists the codecs with fixed payload types, and those without, most preferred first; both sides end up with the same codec, type and DTMF type and with each other's addresses, each written as origin and connection address under its own family (IP4 or IP6); an offer without a common codec is refused. This holds through serialisation and parsing, for codec names in any case, with or without an explicit channel count and for static payload types listed without a mapping, and disabled codecs are never offered, recognised or selected.",
  ["inputs", "configurations"], "every subset and order of codecs, enabled/disabled settings, payload type numbers, name spellings and address placements",
  "Tests hold a few literal SDPs.",
  ["sdp/offer.go", "sdp/codecs.go", "sdp/helpers.go", "codecs.go"], [("selection", "sdp/offer.go:SelectAudio"), ("parsing", "sdp/offer.go:ParseMedia"), ("codec lookup", "sdp/codecs.go:CodecByName"), ("offer", "sdp/offer.go:OfferCodecs,OfferMedia")])

p("C21", "SDP crypto negotiation yields mirrored keys or none",
  "When both sides allow encryption and share a protection profile, offerer and answerer derive configurations of the same profile with mirrored keys, salts and key identifiers (one's local are the other's remote), the answer echoing the tag of the offered line it accepts; if either side requires encryption and none can be agreed on, negotiation fails, and it never yields encryption on one side only. Crypto attributes are parsed with key, salt, lifetime and key identifier (1 to 8 bytes, padded or unpadded base64) exactly as given, and malformed ones are refused.",
  ["inputs", "configurations"], "every subset and order of offered profiles, encryption policies on both sides, key/lifetime/key-identifier syntax and values",
  "Tests hold a few literal attributes and one negotiation.",
  ["sdp/offer.go", "srtp/srtp.go"], [("selection and key mirroring", "sdp/offer.go:SelectCrypto"), ("attribute parser", "sdp/offer.go:parseSRTPProfile,parseMKI,parseLifetime"), ("policies", "sdp/offer.go:Answer,Apply")])

p("C22", "No SDP text crashes the parser or the negotiation",
  "Parsing any text as a session description either fails with an error or yields a description with a valid audio address and port, and never panics; answering or applying whatever was parsed never panics either.",
  ["inputs"], "every session description text: every combination of present, missing, truncated, oversized and malformed lines and attribute fields",
  "The tests parse only well-formed descriptions and a few broken ones.",
  ["sdp/offer.go", "sdp/helpers.go"], [("parsing", "sdp/offer.go:Parse,ParseMedia,parseSRTPProfile"), ("address", "sdp/helpers.go:GetAudioDest")])

p("C23", "DTMF events survive encoding and decoding",
  "Encoding a telephone event and decoding the result gives back its code, digit, volume (6 bits), duration and end flag, and decoding any four or more bytes yields the RFC 4733 fields; shorter buffers are refused on both sides without touching memory beyond them. The 16 keypad digits map one-to-one to event codes 0-15 and to the keypad's two tone frequencies, other characters have no tone, and only packets with the marker bit are reported as a new event.",
  ["inputs"], "every event, every payload byte combination and every digit",
  "Tests send a few digits; the value space of events is not covered.",
  ["dtmf/dtmf.go"], [("codec", "dtmf/dtmf.go:Encode,Decode,DecodeRTP"), ("tables", "dtmf/dtmf.go:Tone")])

p("C24", "DTMF sender emits well-formed event trains for every digit string",
  "For a string of digits and pauses, the sender produces in real time, per digit, one event train: packets every 20 ms sharing one timestamp, the marker on the first only, durations growing in 20 ms steps, the last one with the end flag sent three times, 250 ms (rounded up to frames) of tone followed by as much pause, the first timestamp as given and each later digit's ahead of the previous by at least its duration; 'w' pauses half a second, and in-band audio of exactly one frame per 20 ms carries the digit's tones during the event and silence otherwise. Either output may be absent, and cancellation or a write error ends the sending at once with that error (a frame due at the very instant of the cancellation may still be written).",
  ["inputs", "fault_sequences", "schedules"], "every digit string, either output absent, and cancellation or write failure at any step",
  "Tests send two fixed strings and compare a few packets; cancellation, failures and an absent output are not tested.",
  ["dtmf/dtmf.go", "rtp/rtp.go"], [("sender loop", "dtmf/dtmf.go:Write"), ("timestamp control", "rtp/rtp.go:WritePayloadAtCurrent,Delay")])

p("C25", "Tone and audio players keep the frame cadence and stop on request",
  "Players write exactly one frame per frame interval: the audio player writes the given frames in order, once each, and returns after the last; the tone player repeats its tone/silence program with each phase lasting its configured time rounded up to whole frames, silence being all zeros and tones never exceeding the given volume; the dial, ringing and busy tones it comes with have the standard's frequency and cadence. Both return at once with the context's error when cancelled and with the writer's error when it fails, without writing further frames (one due at the very instant of the cancellation excepted).",
  ["schedules", "fault_sequences", "inputs"], "every cancellation time, write failure position, tone program and number of frames",
  "Tests do not cover the players' timing, cancellation or failure behaviour.",
  ["tones/tones.go", "pcm.go"], [("tone program", "tones/tones.go:Play,Generate"), ("player loop", "pcm.go:PlayAudio")])

p("C26", "G.711 companding is exact",
  "For both laws, decoding yields the standard value of each of the 256 codes, encoding any 16-bit sample yields a code whose decoded value is the one nearest to the sample (at the 14-bit resolution of the input), encoding is monotone, and re-encoding a decoded code gives the same value. The writers encode and decode frame by frame, one byte per sample, whatever the sequence of frame sizes, and pass errors through.",
  ["inputs", "histories"], "all 65536 samples, all 256 codes, and every sequence of frame sizes",
  "One test compares one recording with stored conversions; writers with varying frame sizes are not tested.",
  ["g711/g711.go", "g711/ulaw.go", "g711/alaw.go"], [("tables", "g711/g711.go:buildLawTable,buildLinTable"), ("writers", "g711/ulaw.go, g711/alaw.go:WriteSample")])

p("C27", "Audio travels encoder to RTP to decoder frame by frame",
  "For every registered audio codec and for Opus, each PCM frame written to the encoder leaves as exactly one encoded frame of the codec's size (one RTP packet of the configured payload type when sent over RTP, timestamps advancing by 20 ms in the codec's RTP clock) and decodes to a frame of the same duration (2.5 to 120 ms for Opus) at the decoder's output rate and channel count, silence staying silence and tones anywhere in the codec's band staying what they are; frame sizes may vary (an odd one at 16 kHz G.722 being completed by one sample) from write to write without one frame's content leaking into another, and errors of the next writer are returned. Corrupt Opus packets are tolerated up to five in a row and then reported, empty ones are ignored, and mono/stereo changes between packets are handled.",
  ["inputs", "histories", "fault_sequences"], "every codec, sequence of frame sizes, mono/stereo switching pattern, and position of corrupt packets and write errors",
  "Only G.711 has a test, on one fixed recording; nothing covers G.722, Opus or the RTP glue under varying frame sizes and errors.",
  ["g722/g722.go", "g711/ulaw.go", "opus/opus.go", "rtp/codecs.go", "rtp/rtp.go"], [("encoder buffers", "g722/g722.go:WriteSample"), ("opus channel reset and error budget", "opus/opus.go:WriteSample,resetForSample"), ("RTP glue", "rtp/codecs.go:EncodeRTP,DecodeRTP")])

p("C28", "Recording writers store every frame or report the failure",
  "A raw file writer stores the exact bytes of every frame in order by the time it is closed, for any frame sizes; the WebM writer stores every frame as one block with its exact bytes at time stamps that follow frame number times frame duration. If the underlying file fails or accepts only part of a write at any point, some write or the close reports an error, what was stored before is an exact prefix of the data, and the file is closed exactly once.",
  ["fault_sequences", "inputs"], "every sequence of frame sizes, and a write error, short write or close error at every point",
  "Not tested with failing files.",
  ["media.go", "dump.go", "webm/writer.go"], [("buffered file", "media.go:fileWriter"), ("WebM blocks", "webm/writer.go:WriteSample")])

p("C29", "UDP port selection uses exactly the given range",
  "Listening on a port range binds a port inside the range whenever any port of it is free, whichever port the search starts from, tries each port at most once, and reports failure when all are taken or the range is empty; both bounds unset means any port, equal bounds mean that port, one unset bound is open-ended, and any error other than an occupied port is returned at once.",
  ["inputs", "fault_sequences", "configurations"], "every range (including one-port, open-ended, inverted and out-of-bounds ones), every set of occupied ports in it and every starting point",
  "Not tested; the starting port is random and occupied ports depend on the host.",
  ["rtp/listen.go"], [("search", "rtp/listen.go:bindRange")])

p("C30", "Codec registry reflects registrations and enablement exactly",
  "Registered codecs are listed in registration order, every registration listener hears of each codec exactly once whether it was registered before or after, and lookups by name (any case) and by static payload type find the latest registered codec. Enabling or disabling by name, in any case, one by one or in bulk, decides exactly whether the codec is listed as enabled and found by name, the last setting wins, and codecs registered as disabled start disabled; unknown names have no effect on others.",
  ["histories"], "every sequence of registrations, listener additions, enables and disables, and lookups",
  "Two negotiation tests disable codecs once; sequences of registrations and toggles are not tested.",
  ["codecs.go", "sdp/codecs.go", "rtp/codecs.go"], [("registry", "codecs.go:RegisterCodec,OnRegister,EnabledCodecs"), ("lookups", "sdp/codecs.go:CodecByName", ), ("payload types", "rtp/codecs.go:CodecByPayloadType")])

p("C31", "PCM helpers move samples exactly",
  "PCM samples serialise to little-endian bytes of exactly twice their number and refuse shorter buffers; mono-to-stereo duplicates and stereo-to-mono averages each pair without overflow for every pair of values, the latter also in place; frame and buffer writers and readers append and return samples exactly, in order, without aliasing the caller's buffer, and a closed buffer writer stays unchanged. A multi-writer hands every sample to all its writers even if some fail, closes all of them, and reports an error if any failed.",
  ["inputs", "fault_sequences", "histories"], "all sample values, all lengths, all overlap arrangements and every pattern of failing writers",
  "Not tested directly.",
  ["pcm.go", "media.go", "buffers.go"], [("conversions", "pcm.go:MonoToStereo,StereoToMono,CopyTo"), ("buffers", "pcm.go:bufferWriterPCM16"), ("fan-out", "media.go:MultiWriter")])

p("C32", "A negotiated call carries audio and digits end to end",
  "Two endpoints that negotiated a call by exchanging SDP texts (any enabled codecs on either side, plain or encrypted) exchange audio both ways with what was negotiated: whatever packets the network loses, duplicates or delays by up to two packets, each side's listener gets every audio frame that arrived, unless it was sent before the first one that arrived, once, in the order sent, intact, and within the jitter latency of its arrival and that of those sent before it. DTMF digits dialled in the same stream are reported once each, in order, if their first packet arrives. Callers connected to a mixer are heard by a third party with every frame added once and in order. Hanging up ends all of it, leaving nothing running.",
  ["network_schedules", "configurations", "schedules"], "every pair of codec and encryption settings; every assignment of fates (good, lost, twice, late) to the packets of a call; every single faulty packet of a dialled number",
  "The parts are tested on their own; no test connects them.",
  ["sdp/offer.go", "rtp/session.go", "srtp/srtp.go", "rtp/jitter.go", "rtp/mux.go", "dtmf/dtmf.go", "mixer/mixer.go"], [("call set-up", "sdp/offer.go:NewOffer,Answer,Apply"), ("sending", "rtp/rtp.go:SeqWriter,Stream"), ("receiving", "rtp/jitter.go:HandleJitter"), ("mixing", "mixer/mixer.go:mixOnce")])

p("C33", "Stored prompts load whole, in 20 ms frames",
  "Loading an Ogg Vorbis recording returns all its samples, scaled to 16 bits, in order, in frames of 20 ms (of all channels together) of which only the last may be shorter and none is empty, whatever the number of channels, the length of the recording and however it is divided into packets and pages. A recording of another sample rate or channel count than asked for, or a damaged one that the decoder refuses, is refused rather than loaded in part. The embedded prompts are mono at 48 kHz and load.",
  ["inputs", "configurations"], "every length and paging of a recording, every cut, single changed bits, every mismatch of rate or channels",
  "One test uses one recording as input for something else.",
  ["res/embed.go"], [("loading", "res/embed.go:ReadOggAudioFile")])

p("C34", "Writer chains carry audio, errors and closing, apart from each other",
  "Writers put in front of one another (frame cutting, fan-out, switch, G.711 and G.722 coders, resampler, dump to a file) in any order behave as each of them does on what the one before hands on, take the sample rate of their place in the chain, and leave the caller's samples alone. An error of the writer at the end is returned by some write or by the close (a resampler may keep to itself that its tail was refused at closing), what preceded it is unaffected, and closing the chain closes the end exactly once, after everything was written, and returns its error. Separate chains, and Opus coders, never influence each other, used in turns or at the same time; dumps hold the samples that passed their place.",
  ["configurations", "histories", "fault_sequences", "schedules"], "every chain of up to three writers, sequence of write sizes, refused write or close; every pair of chains in every order of use",
  "Writers are tested alone or in one arrangement.",
  ["media.go", "buffers.go", "dump.go", "resample_soxr.go", "g711/ulaw.go", "g711/alaw.go", "g722/g722.go", "opus/opus.go"], [("fan-out and switch", "media.go:MultiWriter,SwitchWriter"), ("cutting", "buffers.go:frameBuffer"), ("dump", "dump.go:DumpWriter"), ("coders", "g722/g722.go:Encoder,Decoder")])

p("C35", "Mixer statistics account for every frame and sample",
  "The counters of a mixer (WithStats), read while nothing is under way, account for everything that happened, whatever was written, mixed, removed or refused, by one goroutine or several: the input counters are the frames and samples written to inputs, the dropped ones the samples discarded because an input was full and the writes that discarded any, the mixed ones the samples inputs contributed and the frames (possibly short) they came in, the output ones and the mix counter the frames emitted and their samples, write errors the writes the output refused, restarts the times a playing input was found empty, tracks the inputs attached and total tracks those ever created. Every mix is counted as timed or, when it was made up for a late wake-up together with others, as a jump; mixes skipped by a restart of the clock are counted as jumps only, and timing resets are counted exactly when there was such a restart; blocked mixes are those that had to wait for a full output channel.",
  ["histories", "schedules"], "every sequence of writes, mixes, removals, late and refusing outputs; interleavings of writers, creators and closers with the mixer",
  "No test reads the counters beyond a single one.",
  ["mixer/mixer.go"], [("counters", "mixer/mixer.go:Stats,mixInputs,mixOnce,mixUpdate,WriteSample,readSample")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
