SCHED = ("stateless model checking of the real code: exhaustive interleaving enumeration under a controlled scheduler and clock")
SEQ = "bounded exhaustive enumeration of operation histories on the real code against a reference model"
TRUST = " Trusted: the source rewriter, scheduler and clock of vmc/ (self-tested in setup), the Go toolchain."
CHECKS["C01"] = ("model_checking", SEQ, "Every operation sequence to the stated depth from every reachable buffer configuration for small sizes; element type int and byte.")
CHECKS["C02"] = ("model_checking", SEQ + " (virtual time)", "Every bounded history of writes, mixes and removals for small frame sizes and depths; amplitudes include all clamping boundaries." + TRUST)
CHECKS["C03"] = ("model_checking", SCHED, "Every sequence of output delays and errors from a small set, every interleaving of mixer and writer goroutine; time advances only when all goroutines wait." + TRUST)
CHECKS["C04"] = ("model_checking", SCHED + ", plus the race detector on the explored schedules", "All interleavings up to a preemption bound of small concurrent programs; data races looked for on up to 3000 of those schedules each." + TRUST)
NOT_APPLICABLE = {}
JT = " Streams of up to 9 packets with every loss/order/duplication/padding pattern of 4-7 events; other stream shapes are assumed to behave like these."
CHECKS["C05"] = ("model_checking", SEQ + " (virtual time)", "Every arrival history within the bounds, over several sample layouts and sequence wraps." + JT + TRUST)
CHECKS["C06"] = ("model_checking", SEQ + " (virtual time)", "Every arrival history within the bounds, deliveries and their times compared with a reference after every event." + JT + TRUST)
CHECKS["C07"] = ("model_checking", SEQ + " (virtual time)", "Every arrival history within the bounds, counters and loss-handler calls compared with a reference after every event." + JT + TRUST)
CHECKS["C08"] = ("model_checking", SCHED + ", plus the race detector on the explored schedules", "All interleavings (sleep-set reduced, no preemption bound) of small concurrent programs; data races looked for on up to 3000 schedules each." + TRUST)
CHECKS["C09"] = ("model_checking", SCHED + ", plus the race detector on the explored schedules", "All interleavings (sleep-set reduced) of small concurrent programs of readers, writers and closers; sequential reads and writes of every size pattern; data races looked for on up to 3000 schedules each." + TRUST)
CHECKS["C10"] = ("model_checking", SEQ + "; " + SCHED, "Every operation sequence to the stated depth; all interleavings of small concurrent programs with real-time-order checking of routed writes." + TRUST)
CHECKS["C11"] = ("model_checking", SEQ + "; " + SCHED, "Every sequence of write sizes and refused calls within the bounds for small and real frame sizes; all interleavings of small concurrent programs." + TRUST)
CHECKS["C12"] = ("model_checking", SEQ + " (the one-shot result and the input signal)", "Every bounded sequence of write sizes for every pair of rates; contents compared on one two-tone signal and on constants (the filter is assumed linear)." + TRUST)
CHECKS["C13"] = ("model_checking", SEQ + "; " + SCHED, "Every bounded sequence of writes and refusals over three streams, across the 16-bit wrap; all interleavings of small concurrent writers." + TRUST)
CHECKS["C14"] = ("model_checking", SEQ + "; " + SCHED, "Every bounded sequence of writes, refusals, delays and resets over up to three streams; refusals only on single streams; timestamps below the 32-bit wrap (crossing it is a known finding)." + TRUST)
CHECKS["C15"] = ("model_checking", SEQ + "; " + SCHED + ", plus the race detector on the explored schedules", "Every bounded sequence of good and malformed packets and every packet size; all interleavings of acceptor and readers for up to 7 packets. The connection is a stand-in that keeps datagram boundaries." + TRUST)
CHECKS["C16"] = ("model_checking", SCHED + ", plus the race detector on the explored schedules", "All interleavings of acceptors, readers, writers and closers on up to 3 packets. The connection is a stand-in whose pending reads fail when it is closed." + TRUST)
CHECKS["C17"] = ("model_checking", SEQ + "; " + SCHED + ", plus the race detector on the explored schedules", "Every profile, key-identifier length, header shape and a set of payload sizes; every single-bit change, truncation, replay and order of short packet sequences; all interleavings of closers with acceptors and readers. pion/srtp and pion/transport are explored with the code, the cryptography itself is trusted. Not covered: the padding bit, header extensions ending in a zero-length element, loss across the first sequence wrap." + TRUST)
CHECKS["C18"] = ("model_checking", SEQ + "; " + SCHED, "Every bounded sequence of registrations with every payload type after each; all interleavings of small concurrent programs, real-time order checked." + TRUST)
CHECKS["C19"] = ("model_checking", SEQ + " (virtual time); " + SCHED, "Every arrival history of up to 6 events over 6 packets; every pattern of handler errors; all interleavings of two pushers, timer and close." + TRUST)
CHECKS["C20"] = ("model_checking", SEQ, "Every pair of codec settings of two endpoints over six codecs; every list of up to 3 (part: 4-5) formats from an alphabet of spellings. Not covered: static payload types remapped to another codec; with several DTMF mappings in one offer any of them is accepted; whether disabling telephone-event also stops recognising it is left open.")
CHECKS["C21"] = ("model_checking", SEQ, "Every combination of attribute parts and every list of up to 3 offered lines (thorough: 4), all encryption settings; keys and identifiers proved on a packet through pion/srtp contexts (trusted). Session parameters and several keys on one line are not covered.")
CHECKS["C22"] = ("model_checking", "bounded exhaustive enumeration of input texts on the real code", "All pairs of line variants (thorough: triples), the full cross of address and media slots, all texts one byte insertion/replacement or one deleted range away from three base texts (thorough: two bytes). Includes the pion parser.")
CHECKS["C23"] = ("model_checking", "exhaustive enumeration of the input space on the real code", "Every code, volume byte and end flag with a set of durations and every duration with every digit and volume; every pair of leading bytes decoded with six durations and every duration; every byte as a digit; every buffer length up to 12.")
CHECKS["C24"] = ("model_checking", SEQ + " (virtual time)", "Every digit string to the stated length with every combination of outputs, every position of a write failure or cancellation; instants are virtual." + TRUST)
CHECKS["C25"] = ("model_checking", SEQ + " (virtual time)", "Every tone program and frame list within the bounds, every position of a failure and of a cancellation, slow writers included. One frame due at the instant of a cancellation may still be written." + TRUST)
CHECKS["C26"] = ("model_checking", "exhaustive enumeration of the input space on the real code", "All 65536 samples and 256 codes of both laws against tables from the standard; every bounded sequence of frame sizes and refusals through the writers.")
CHECKS["C27"] = ("model_checking", SEQ, "Every bounded sequence of frames (silence, two tone levels), sizes, packet kinds, corruptions and refusals for every codec, including both Opus directions; tones across the band at every output rate; contents compared by tone fitting with tolerances. libopus and the G.722 library are trusted.")
CHECKS["C28"] = ("model_checking", SEQ + "; " + SCHED + ", plus the race detector on the explored schedules", "Every bounded sequence of frame sizes against every failing write, every failing byte of some files and a failing close; WebM files read back by an own parser. The WebM library (ebml-go) is explored with the code, its block format is trusted to be what players read." + TRUST)
CHECKS["C29"] = ("model_checking", "bounded exhaustive enumeration of environment behaviours and random choices on the real code", "Every behaviour of every port of ranges of up to 8 ports (occupancy simulated in the socket's control hook, every starting port explored), every pair of bounds from 16 values, every history of 5 listens and closes on real loopback sockets. Larger ranges are tried with a fixed start.")
CHECKS["C30"] = ("model_checking", SEQ, "Every history of 4 (thorough: 5) operations out of 16 on the real registry, fresh names per history in one process; every payload type. Concurrent registration is not covered (the registry is not made for it).")
CHECKS["C31"] = ("model_checking", "exhaustive enumeration of the input space on the real code; " + SEQ + "; " + SCHED, "All 2^32 stereo pairs and all sample values; every bounded history of buffer operations and writer failures; all interleavings of up to three threads on a buffer writer. Rounding of averages is left open." + TRUST)
CHECKS["C32"] = ("model_checking", "enumeration of network behaviours and configurations on the real code under a controlled scheduler with virtual time; " + SCHED, "Every pair of settings over three codecs, DTMF and encryption; every assignment of five fates to the first 4-6 packets, also across the wrap of the sequence numbers; every second or third packet of four dialled numbers faulty in every way; two callers mixed at 25 relative phases; all schedules of a short call with up to 2 deviations (encrypted: 1)." + TRUST)
CHECKS["C33"] = ("model_checking", "exhaustive enumeration of a bounded family of inputs on the real code", "Recordings put together again from the packets of the embedded ones, also with more channels and with samples at full scale: lengths (every 13th, thorough: every one) up to 14 packets, every number of packets up to 40, page sizes, both endings, every cut, single changed bits. The Vorbis decoder is trusted.")
CHECKS["C34"] = ("model_checking", SEQ + "; " + SCHED + ", plus the race detector", "Every chain of up to 3 (thorough: 4) of nine writers with every sequence of 3 writes from 4-5 sizes; every refused write for three sequences; every pair of chains of 1 writer (and some of 2; thorough: all) in every order of 3 writes each; schedules with one deviation. Resamplers dither at random: behind one, samples are compared with a tolerance." + TRUST)
CHECKS["C35"] = ("model_checking", SEQ + " (virtual time); " + SCHED, "Every history of 4-5 operations on one or two inputs for several buffer depths and output channels, every sequence of 4 output delays; interleavings up to 1-2 preemptions of two or three concurrent users. What the blocked-mix counter says is checked only as zero or not where the schedule decides it." + TRUST)
