#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one property per entry).  Run: python3 tools/gen_properties.py"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe_at=None):
    a = {"files": files, "mechanism": mechanism}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe_at: a["observe_at"] = observe_at
    a["hook_needed"] = False
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

Q = "include/cler_spsc-queue.hpp"
prop("C01", "A channel is an exact FIFO for every history of its operations",
 "For every sequence of single-item, bulk, peek/commit and contiguous-window reads and writes mixed on one channel, the items come out exactly once, in order and unchanged, no operation reports more than fits, and an operation that fails changes nothing. Fill level plus free space always equals the capacity, the fill level equals items written minus items read, and non-blocking operations fail exactly when the channel is full (write) or empty (read).",
 ["histories", "inputs"],
 "every interleaving of up to the stated number of operations of every API family, from every reachable fill level and ring position, with arbitrary payloads and requested counts",
 "The unit tests run fixed scripts of one API family at a time; stale internal caches, wrap positions and partial bulk transfers need particular mixes of families at particular ring positions.",
 [Q], "ring indices with a one-slot gap, plus cached copies of the opposite index refreshed by only some operations",
 [("writer/reader index", "ring positions"), ("cached opposite index", "each side's possibly stale view")],
 "return values, popped items, size(), space(), empty()")
prop("C02", "Concurrent producer and consumer never lose, duplicate, tear or race",
 "With one producer thread and one consumer thread using any of the transfer operations, under every interleaving and every value the C++ memory model lets an atomic load return, the consumer sees exactly the produced sequence (a prefix of it) with intact contents, and no slot is read and written without a happens-before order. A concurrent observer of fill level never makes either side overrun the buffer.",
 ["schedules", "inputs"],
 "every schedule of two threads of the stated number of operations and every read-from choice of the release/acquire memory model",
 "Stress tests on x86 sample a few schedules on a strongly ordered machine; weakened orderings or an index published before the data are invisible there.",
 [Q], "single-writer atomics with release publication and acquire observation",
 [("writeIndex/readIndex", "published positions")], "items the consumer obtains, data-race detector")
prop("C03", "Every channel provides at least the requested capacity and stays in its memory",
 "For every requested capacity and element size, on both the heap and the in-object storage, the channel offers at least the requested number of slots, and every operation touches only memory that belongs to the channel; construction and destruction pair every element's constructor and destructor and return every byte allocated.",
 ["inputs", "configurations"],
 "every requested capacity in the stated ranges, several element sizes (dividing and not dividing the page size), with and without double mapping",
 "Tests use a handful of power-of-two capacities with power-of-two element sizes, so rounding and padding arithmetic for other sizes is never reached.",
 [Q, "include/cler.hpp"], "page rounding of the byte size, padding around the slots, element construction",
 None, "capacity(), writes at the extreme slots, allocator accounting")
prop("C04", "Contiguous read and write windows are the ring, in order, with no gap",
 "Whenever a channel offers contiguous windows, element i of the write (read) window is the slot that will be the i-th next written (read) by the ordinary operations, including across the physical end of the buffer, and the window length equals exactly the free space (fill level). Data written through one kind of operation is read back identically through any other.",
 ["inputs", "configurations", "histories"],
 "every ring position and fill level, every window offset, buffer sizes on both sides of the page and huge-page sizes, element sizes that do and do not divide the page",
 "Tests exercise one or two buffer sizes and few wrap positions; sizes where the mapped length differs from the ring length silently read stale memory.",
 [Q, "include/virtual_memory/cler_vmem_posix.hpp"], "the buffer is mapped twice back to back; correctness needs second mapping to start exactly one ring after the first",
 None, "read_dbf()/write_dbf() windows against try_pop/readN/writeN")
prop("C05", "Mirror-buffer set-up survives every system-call failure without leaks",
 "Whatever system call fails while a mirrored buffer is being created, at any point and in any combination, creation either yields a working mirrored buffer or reports failure cleanly, and afterwards (and after destruction) no descriptor and no mapping is left behind and nothing is released twice. Moving an allocation transfers ownership exactly once.",
 ["fault_sequences", "inputs"],
 "every subset of failing system calls and every requested size in the stated range",
 "Tests run on a host where every call succeeds, so none of the error branches is ever executed.",
 ["include/virtual_memory/cler_vmem_posix.hpp", "include/cler_platform.hpp"], "reserve, map, map again, unwind on failure",
 [("base/size/fd", "ownership of a mapping")], "recorded open/close/mmap/munmap history")
prop("C06", "Pool scheduling gives every block to exactly one worker, and all get served",
 "For every number of blocks and every configured number of workers, the fixed pool assigns each block to exactly one worker, every worker serves all of its blocks in turn, and no block is ever run by two workers; each visit makes at most the configured number of calls. No configuration reads or writes outside the scheduler's tables.",
 ["configurations", "histories"],
 "every worker count and block count in the stated ranges, every result a block may return",
 "Tests use two or three combinations that divide evenly; partial last groups, more workers than blocks and extreme counts are configuration corner cases.",
 ["include/cler.hpp"], "contiguous block groups per worker, round-robin cursor",
 None, "which thread runs which block, recorded by instrumented blocks")
prop("C07", "Fatal errors stop every block; soft errors never stop any",
 "Under both schedulers a block that returns a terminating error stops the whole flowgraph: every other block ceases to be called, the terminate handler runs (with its context, and with the graph already marked stopped) exactly once per terminating result, and stopping afterwards returns with all workers joined. A non-terminating result never stops the flowgraph nor keeps another block from being called, and no block is called after stop has returned.",
 ["schedules", "histories", "inputs"],
 "every result code returned by any block at any step, every point at which stop is requested, within the stated number of steps and blocks",
 "Tests return one or two codes from one block at one moment and observe wall-clock outcomes.",
 ["include/cler.hpp", "include/cler_result.hpp"], "shared stop flag, per-block loop, error classification",
 [("stop flag", "shutdown request")], "calls observed by instrumented blocks, handler invocations, is_stopped()")
prop("C08", "A flowgraph can be stopped and run again and behaves the same each time",
 "After a stop, however it came about (user request, timed run, terminating error), running the flowgraph again restarts every block under the newly given configuration, and stop can be called any number of times, before, during and after a run, from outside the graph's own tasks. A timed run lasts at least as long as asked and has ended when the call returns. Statistics and the stopped state describe the latest run only.",
 ["histories", "configurations"],
 "every sequence of run/run-for/stop/terminating-error events up to the stated length, both schedulers",
 "Tests run each graph once or twice along the happy path.",
 ["include/cler.hpp"], "task vector lifecycle, stop flag reset, statistics reset",
 None, "instrumented task layer: tasks created, joined; stats(); is_stopped()")
prop("C09", "Adaptive back-off stays inside its configured bounds",
 "With adaptive sleeping on, a block that has just made progress is never delayed, a block that fails to progress is delayed only after the configured number of consecutive failures, and the back-off starts at no more than a microsecond, grows by at most the configured multiplier (plus its small per-block jitter) and never exceeds the configured maximum. With adaptive sleeping off no delay is ever taken.",
 ["histories", "configurations"],
 "every configuration value in the stated ranges and every sequence of block results up to the stated length",
 "Sleeping is only visible as time in tests; thresholds and growth are never checked for arbitrary settings.",
 ["include/cler.hpp"], "consecutive failure counter and multiplicative back-off",
 None, "sleep requests received by the task layer")
prop("C10", "Execution statistics count every call and every microsecond exactly once",
 "Every block's statistics report exactly the number of successful and failed calls made to it in the run, and, when detailed statistics are on, times that are non-negative and never exceed the run time. Average time and utilisation derived from them are within their defined ranges, also when nothing has run.",
 ["histories", "configurations"],
 "every sequence of block results up to the stated length and every non-decreasing clock",
 "Tests only compare counts with zero.",
 ["include/cler.hpp"], "counters updated in the scheduler loops",
 None, "stats()")
prop("C11", "A result is either a value or an error, and is classified consistently",
 "A result constructed from a value reports success and gives that value back unchanged through copies, moves and assignments; one constructed from an error reports failure with that error. Every error code is either terminating or recoverable, consistently across all helpers that classify it, and has a text of its own.",
 ["inputs", "histories"],
 "every error code (also out-of-range values), every payload, every sequence of copy/move/assign up to the stated length",
 "No unit test covers assignment over a live value or the text table for all codes.",
 ["include/cler_result.hpp"], "tagged storage with manual lifetime management", None,
 "is_ok/is_err/unwrap, is_fatal, to_str, live-object accounting")
prop("C12", "Fixed-capacity names are truncated, terminated and never overrun",
 "For every source text, copy, assignment and concatenation, a fixed-capacity string holds exactly the leading part that fits, is always terminated and reports its own length and emptiness. No operation reads or writes outside its storage or past the source's terminator.",
 ["inputs", "histories"],
 "every source content and length up to the stated bounds and several capacities",
 "There are no tests for it; truncation boundaries need exact lengths.",
 ["include/cler_embeddable_string.hpp"], "bounded copy with explicit length", None, "c_str(), size(), operators")
prop("C13", "Power-of-two helpers are exact for every machine word",
 "Rounding down yields the greatest power of two not above the argument, rounding up the least not below it, and the power-of-two test is true exactly for powers of two, for every argument whose answer is representable.",
 ["inputs"], "all 2^64 (and 2^32) argument values",
 "No finite sample settles a bit-trick for all words.",
 ["include/cler_utils.hpp"], "bit smearing", None, "return values")
B = "desktop_blocks/"
prop("C14", "Per-sample blocks neither lose, duplicate, reorder nor invent samples",
 "Under every input fill level, output space and ring position, each call of a one-in one-out block (gain, magnitude/phase demultiplexer, noise, FM demodulation, filter, throughput meter) consumes exactly as many samples as it produces, produces for each consumed sample exactly the value its definition prescribes, in order, and leaves the rest of the input in place. What can move does move; a call that moves nothing changes nothing and never ends the graph.",
 ["inputs", "histories", "configurations"],
 "every fill level, space, ring position and sample value within the stated buffer sizes, over the stated number of calls",
 "Block tests drive one chunk pattern with ample space.",
 [B+"math/gain.hpp", B+"math/complex_demux.hpp", B+"noise/awgn.hpp", B+"fm/fm_demod.hpp", B+"filters/kaiser_lpf.hpp", B+"utils/throughput.hpp"],
 "min(available, space) transfer size, then transform", None, "channel contents before and after procedure()")
prop("C15", "Multi-port blocks keep their ports sample-aligned",
 "Under every combination of fill levels and output spaces, the adder's k-th output is the sum of the k-th samples of all inputs, the fan-out gives every output the identical stream, and the channeliser advances all outputs together by whole frames; every port advances by the same number of samples in each call and nothing is dropped when any one port is starved or full.",
 ["inputs", "histories", "configurations"],
 "every vector of per-port fill levels, spaces and ring positions within the stated sizes",
 "Tests keep all ports at equal levels.",
 [B+"math/add.hpp", B+"utils/fanout.hpp", B+"channelizers/polyphase_channelizer.hpp"],
 "transfer size is the minimum over all ports", None, "channel contents before and after procedure()")
prop("C16", "A generated or shifted signal does not depend on how it is cut into chunks",
 "The sample sequence a tone, chirp or frequency-shift block emits is a function of the sample index (and input samples) alone: any sequence of calls with any output space per call yields the same concatenated stream, with no sample repeated, skipped or reset at a call boundary.",
 ["histories", "configurations"],
 "every way of cutting the stream into calls up to the stated lengths, symbolic oscillator parameters and inputs",
 "Tests ask for one block of samples per configuration.",
 [B+"sources/source_cw.hpp", B+"sources/source_chirp.hpp", B+"math/frequency_shift.hpp"],
 "phase carried between calls", None, "concatenated output for two cuttings")
prop("C17", "The throttle never lets samples through faster than its rate",
 "For every non-decreasing clock and every availability of samples, the number of samples a throttle has passed by any time never exceeds what its rate (the sample interval in whole clock ticks) allows since the start (plus one), nor, after any earlier sample, what the rate allows since that one plus one more (a delay is not made up for by a burst); it waits no longer than one interval per sample, samples pass in order and unchanged, and a throttled or blocked call consumes nothing.",
 ["histories", "inputs"], "every sequence of clock readings and calls up to the stated length",
 "Tests measure average wall-clock rate with tolerance.",
 [B+"utils/throttle.hpp"], "next-tick schedule against a monotonic clock", None, "samples moved per call against clock readings")
prop("C18", "File source and sink transfer exactly the bytes of the file",
 "The file sink writes exactly the bytes of the items it consumed, in order, and never consumes an item it did not write unless it reports a terminating I/O error; the file source emits exactly the whole items of the file in order, repeats from the start or terminates at the end as configured, and reports unreadable files as terminating errors.",
 ["inputs", "histories", "fault_sequences"],
 "every file length in the stated range, every short read/write the library may report, every fill level and space",
 "Tests use one file and a buffer larger than it.",
 [B+"sinks/sink_file.hpp", B+"sources/source_file.hpp"], "bulk read/write through contiguous windows", None, "modelled file contents against channel contents")
prop("C19", "The buffer pool never hands out a slot twice and never loses one",
 "At every moment each slot of a slab is either free or taken; a slot taken once is not handed out again before it was released, a released slot becomes available again exactly once (releasing again through the same handle does nothing), and a request succeeds exactly when a slot is free and otherwise has no side effect, with one party taking slots and any number releasing them at the same time. A slot's memory has the slab's slot size, overlaps no other slot's and keeps what its holder wrote.",
 ["histories"], "every sequence of handle operations up to the stated length and slot counts",
 "Tests take and release in one fixed pattern, in builds with different assertion settings.",
 [B+"blob.hpp", B+"blob.cpp"], "lock-free free list of slot indices, move-only handles", None, "handle addresses, availability counts")
prop("C20", "UDP source delivers each datagram once and whole; sink sends each item once",
 "Whatever sequence of datagrams, short reads and errors the socket yields, the source emits exactly the valid datagrams in arrival order with their own bytes and lengths (for fixed-size items those of exactly that size), never an item that was not received, and returns every unused buffer to its pool; the sink sends each consumed item in order with its own bytes until sending fails, when it reports a terminating error, and releases the buffers of all consumed items even then.",
 ["fault_sequences", "inputs", "histories"],
 "every sequence of socket results up to the stated length, every output space and pool level",
 "Tests use the loopback where nothing fails and everything arrives whole.",
 [B+"udp/source_udp.hpp", B+"udp/sink_udp.hpp", B+"udp/shared.cpp", B+"udp/shared.hpp"], "per-call receive/send loops over pool slots", None, "modelled socket against channel contents and pool level")
prop("C21", "Only well-formed network addresses are accepted, and they mean what they say",
 "An address text for a network socket is accepted exactly when it has a colon and after the last one a port of decimal digits up to 65535, and for a sender a host before it that is not empty and valid; a path for a local socket when it fits into a socket address and, for a sender, is not empty. The endpoint used is the one written (receivers bind the port on all interfaces); everything else is rejected with an error, and no socket is left open after an error.",
 ["inputs"], "every text up to the stated length",
 "Tests try a few literals.", [B+"udp/shared.cpp", B+"udp/shared.hpp"], "split at separator, numeric port", None, "resulting endpoint or exception")
A = B+"adsb/"
prop("C22", "Mode S checksum detects and repairs exactly what it promises",
 "For every message, the checksum equals the 24-bit polynomial remainder; an intact extended squitter or all-call is accepted unchanged, a single flipped bit is repaired to the original at the right position, two flipped bits are repaired only to a message whose checksum is right, and a message with more damage is never reported as intact.",
 ["inputs"], "every 56- and 112-bit message and every one- and two-bit error pattern",
 "Tests cover no Mode S code at all; 2^112 messages times 6216 patterns cannot be sampled.",
 [A+"modes.c"], "table-driven CRC and syndrome table", None, "decoded message's crcok, errorbit, msg bytes")
prop("C23", "Mode S message fields are decoded as the standard defines them",
 "For every 56- and 112-bit message the decoded type, address, altitude, identity, callsign, position, velocity and heading fields equal those obtained by the published field layout, depend only on the message, and are always initialised; optional features never read or write outside the message.",
 ["inputs"], "every 112-bit message content",
 "No tests; field extraction is pure bit arithmetic over 2^112 inputs.",
 [A+"modes.c", A+"modes.h"], "bit extraction and lookup tables", None, "mode_s_msg fields")
prop("C24", "The Mode S demodulator stays in its buffer and finds clean messages",
 "For every sample content and length the detector reads and writes only the given samples, leaves them as it found them, terminates, and reports each noise-free message placed in the buffer with exactly its bits.",
 ["inputs"], "every magnitude content for short buffers; every message content for noise-free frames; all buffer lengths in the stated range",
 "No tests; adversarial sample patterns and buffer ends are never reached.",
 [A+"modes.c", A+"modes_2400.c"], "preamble search, bit slicing, phase correction retry", None, "memory bounds, callback messages")
prop("C25", "Compact position decoding returns the position that was encoded",
 "For every pair of odd and even position reports of one aircraft the decoded latitude and longitude lie in range and within the encoding resolution of the encoded position, pairs from incompatible zones are rejected, and no pair of raw fields makes the decoder read out of its tables or loop.",
 ["inputs"], "all 2^17 x 2^17 raw field values (and both orders)",
 "No tests; failures concentrate at zone boundaries.",
 [A+"cpr.c", A+"cpr.h"], "zone tables and modular arithmetic", None, "returned coordinates and status")
prop("C26", "Address-protected replies are accepted only for recently seen aircraft",
 "A reply whose checksum is overlaid with its address is accepted exactly when that address was seen in a verified message within the retention time, and reported with that address; unknown addresses are never accepted.",
 ["histories", "inputs"], "every address, message and time within the stated number of events",
 "No tests.", [A+"modes.c"], "hashed cache of recent addresses with timestamps", None, "crcok and address of decoded replies")
prop("C27", "Embedded task layers run each task once, to completion, and clean up",
 "On each supported real-time system, a created task runs its function exactly once, joining returns only after it has finished and releases everything acquired for it, a failed creation leaks nothing and is reported, and delays are never shorter than requested.",
 ["fault_sequences", "histories", "schedules"], "every outcome of the operating-system calls, both orders of task and joiner, several tasks",
 "The embedded examples are only compiled, never run.",
 ["include/task_policies/cler_freertos_tpolicy.hpp", "include/task_policies/cler_threadx_tpolicy.hpp", "include/task_policies/cler_zephyr_tpolicy.hpp"],
 "wrapper objects carrying a completion signal", None, "modelled operating-system calls")
prop("C28", "Log lines survive rotation and are never torn",
 "Whatever the message sizes and limits, each message is written completely to exactly one file, a file never exceeds the configured size by more than one message, and at most the configured number of old files is kept, newest first.",
 ["histories", "inputs"], "every sequence of message lengths up to the stated bound and rotation settings",
 "Tests do not rotate.", ["desktop_logger"], "size check then rename chain", None, "modelled file system")
prop("C29", "Radio frames carry their header and payload to the modulator and back in bounds",
 "For every allowed combination of preamble, header and payload lengths, the framer emits symbols for exactly those bytes in order followed by the configured tail and then reports completion, regardless of how many samples it is asked for per call, and the deframer writes only inside its buffers.",
 ["inputs", "histories", "configurations"], "every length combination in the stated ranges and every cutting into calls",
 "No unit tests cover it.", [B+"ezgmsk"], "state machine over preamble, header, payload, tail", None, "symbol stream, buffer bounds")
prop("C30", "The time-series buffer always shows the most recent samples, in order",
 "However input arrives, the plotted window of every channel consists of the latest samples in arrival order with matching time stamps, all channels cover the same instants, and no update writes outside the display buffers.",
 ["histories", "configurations"], "every fill level and number of updates within the stated bounds",
 "GUI blocks are not built in tests.", [B+"plots/plot_timeseries.cpp"], "sliding window over a channel", None, "buffers handed to the plotting library")
prop("C31", "Sample conversions between radio hardware and the graph are exact and bounded",
 "Every hardware byte pair becomes exactly one complex sample with the documented scaling, every sample sent becomes exactly one byte pair with saturation, and no transfer length, including odd and empty ones, loses alignment or touches memory outside the transfer.",
 ["inputs", "histories"], "every byte value, transfer length and channel space within the stated bounds",
 "Hardware is absent in tests.", [B+"sources/source_hackrf.hpp", B+"sinks/sink_hackrf.hpp"], "driver callbacks copying into a channel", None, "channel contents, transfer buffer")
prop("C32", "Decoder and tracker blocks neither invent nor corrupt aircraft",
 "The decoder block emits exactly the messages found in its sample stream however the stream is cut into calls, and the tracker keeps one entry per address, updated only by that address's messages.",
 ["histories", "inputs"], "every cutting and message sequence within the stated bounds",
 "No tests.", [A+"adsb_decoder.hpp", A+"adsb_aggregate.hpp"], "chunked magnitude buffer; map keyed by address", None, "emitted messages; tracked state")
prop("C33", "Resampling keeps every output sample it computes",
 "For every input chunking and output space a resampler consumes only samples whose results it delivers, in order, and delivers the same stream for every chunking.",
 ["histories", "inputs"], "every fill level, space and number of results per input within the stated bounds",
 "Tests give ample output space.", [B+"resamplers/multistage_resampler.hpp"], "capacity estimate before executing", None, "channel contents")
prop("N01", "Diagram generation reflects exactly the blocks and connections in the source",
 "For every flowgraph source file the generated diagram contains each declared block and each connection once.",
 ["programs"], "all programs", "Only fixed samples.", ["tools/mermaid"], "syntax-tree walk", None, "generated text")
prop("N02", "Filter and channeliser responses meet their design attenuation",
 "For every parameter set the frequency response of the filtering blocks meets the requested attenuation and bandwidth.",
 ["configurations", "inputs"], "all parameters", "Only a few tones.", [B+"filters/kaiser_lpf.hpp", B+"channelizers/polyphase_channelizer.hpp"], "external DSP library", None, "spectra")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
