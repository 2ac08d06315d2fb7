#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOTEST = "The root package has no tests at all; "
p("C01", "Demuxer callback protocol: tracks, then completion, then packets, once each",
  "For any sequence of stream inputs and probe-completion requests, a demuxer's handler sees nothing until probing ends, and then either exactly one track-not-found notice and no track or packet ever, or every discovered track announced exactly once in index order, then exactly one track-complete notice, and packets only after that. After probing has ended no track is ever added or announced and no second completion is signalled, whatever is fed or requested.",
  ["histories", "inputs"], "every interleaving of audio/video inputs (accepted and rejected), sequence headers and (repeated) completion requests, for every container kind",
  NOTEST + "the order must hold for every history of inputs, not for one sample stream.",
  ["demuxer.go", "handler.go"], [("completion latch and ordered callbacks", "demuxer.go OnProbeComplete"), ("packets parked until completion", "demuxer.go processBufferedPacket"), ("no track after completion", "demuxer.go AddTrack")],
  ["OnUnpackStreamHandler callbacks"], [("Completed", "probing over", "BaseDemuxer")])
p("C02", "Every accepted packet is delivered exactly once, in order, with its metadata",
  "Each packet accepted on a track reaches the handler exactly once with its own payload, timestamps, key flag, codec, media type, timebase and track index and a duration equal to the decode-time distance to its successor on that track; only the newest packet of a track is withheld, until its successor arrives, and rejected input is never delivered. Within a track packets come out in arrival order as long as decode times do not go backwards (equal ones included), and the packets parked during probing are released merged in ascending decode time. The preprocess callback sees every accepted video packet exactly once before it is delivered.",
  ["histories", "inputs"], "all interleavings of up to several tracks, any order in which tracks get their first packet, equal and decreasing timestamps, rejections in between, completion at any point",
  NOTEST + "loss, duplication or reordering depends on which track delivers first and when probing ends.",
  ["demuxer.go", "av_packet.go", "collections/linked_list.go"], [("per-track parking lists", "demuxer.go processBufferedPacket"), ("merge by decode time", "demuxer.go OnProbeComplete"), ("metadata set once", "av_packet.go NewVideoPacket/NewAudioPacket")],
  ["OnPacket callback vs. inputs"], [("Packets", "per-track parked packets", "BaseDemuxer")])
p("C03", "Delivered payloads are byte-exact and buffered blocks stay balanced",
  "When stream data is assembled through the stream buffers, the bytes of a packet at delivery (and afterwards until its block is released) equal the bytes written for it, however writes of the streams interleave, however much was rejected in between and however often the buffers wrap around or grow. Every accepted packet holds exactly one block of its own stream until it is released (automatically after delivery when auto-free is on), and rejected packets and configuration headers hold none.",
  ["histories", "inputs"], "all interleavings of fragmented writes, fetches, accepted and rejected packets, configuration headers and releases, on every container kind, with packet sizes up to and beyond the buffer size",
  NOTEST + "corruption needs a particular history of wrap-around, growth, rejection and release.",
  ["demuxer.go", "streams_buffer.go", "collections/buffer_rb.go", "data_pipeline.go"], [("discard-back on rejection, discard-head on release", "demuxer.go OnAudioPacket/OnVideoPacket/forwardPacket"), ("block ring", "collections/buffer_rb.go")],
  ["DataPipeline boundary (recording wrapper)", "OnPacket callback"])
p("C04", "Probing ends exactly when enough media time is buffered, or when forced",
  "Probing ends by itself as soon as the decode-time span parked on some single track reaches the larger of the configured probe duration and 200 ms, and not before (up to the millisecond rounding of the individual packet durations). A tentative completion request is ignored while any 16-bit PCM or G.726 track still has fewer than two packets and completes otherwise; a forced request always completes immediately, parked packets included.",
  ["histories", "inputs"], "all packet timings and timebases, probe durations, track mixes, and positions of tentative or forced requests",
  NOTEST + "the threshold depends on accumulated durations across arbitrary histories.",
  ["demuxer.go"], [("duration accumulation", "demuxer.go processBufferedPacket"), ("deferral", "demuxer.go TryCompleteProbe")],
  ["OnTrackComplete callback position relative to inputs"])
p("C05", "Announced tracks describe the stream they came from",
  "Every announced track carries the media type, codec, container timebase, position index and, from the stream's own headers, the right video dimensions and parameter sets or audio sample rate, channel count and configuration bytes, as private copies that later reuse of the input memory cannot change. At most one track exists per input slot (outside MPEG-TS also at most one header-created track per media type), input whose headers cannot be parsed creates no track, and mono 16-bit PCM (8/16/32/48 kHz) and G.726 (16/24/32/40 kbit/s) tracks get the rate implied by their first packet.",
  ["inputs", "histories"], "all valid H.264/H.265/AAC headers in Annex-B, configuration-record and ADTS form, with and without in-band headers, malformed headers, any order of streams",
  NOTEST + "the mapping must hold for every header and every order of appearance.",
  ["demuxer.go", "av_stream.go", "video_stream.go", "codec_paraments.go", "tracks.go"], [("track creation", "demuxer.go createAudioTrack/createVideoTrack"), ("rate inference", "demuxer.go calculatePCMFrequency/calculateG726BitRate")],
  ["OnNewTrack callback"])
p("C06", "Ring block buffer never corrupts, loses or reorders unreleased blocks",
  "In the ring block buffer, a fetched block is exactly the concatenation of what was written since the previous fetch, contiguous, and its bytes stay intact until that very block has been released, across wrap-around, growth, discarding of the newest block and clearing. Releases remove blocks oldest first and dropping removes the newest, one block per call, also for blocks whose memory was replaced by growth; the reported pending size is that of the unfetched block.",
  ["histories", "inputs"], "every sequence of write/alloc/fetch/pop/pop-back/clear with every block size (including empty, exactly fitting and oversized) and capacity",
  "The only block-buffer test writes and pops single bytes in the other buffer type and compares no data; wrap-around and growth histories are never reached.",
  ["collections/buffer_rb.go", "collections/buffer_direct.go", "collections/block_buffer.go", "collections/queue.go"], [("wrap/grow decision", "collections/buffer_rb.go Alloc"), ("release accounting after growth", "collections/buffer_rb.go Pop, discardBlockCount")],
  ["returned slices", "Size", "PendingBlockSize"])
p("C07", "Linear block buffer keeps blocks intact and split-off halves are independent",
  "In the linear block buffer a fetched block equals what was written for it and stays intact until released, growth included, and its data view is everything appended since it was last empty. Splitting it (or a ring block buffer) off yields an empty, fully usable buffer, refuses further writes to the original, and nothing ever written to either side, also after the original is cleared for reuse, changes data held by the other.",
  ["histories", "inputs"], "every sequence of write/alloc/fetch/pop/pop-back/clear/split on both halves with every block size and capacity",
  "The test writes and pops 100 single bytes and compares nothing; splitting is never tested.",
  ["collections/buffer_direct.go", "collections/buffer_rb.go", "collections/block_buffer.go"], [("append and grow", "collections/buffer_direct.go Alloc/grow"), ("seal and split", "collections/buffer_direct.go SplitOff")],
  ["returned slices", "Data", "AvailableBytes", "Size"])
p("C08", "Stream pipelines isolate streams and return exactly what was written",
  "On the per-stream pipeline, whichever stream index is used first and however the streams interleave, a fetch returns exactly the bytes written to that stream since its previous fetch, other streams are unaffected, discards remove the oldest or newest block of that stream only, and the pending size is the number of unfetched bytes. On the direct pipeline a fetch returns exactly the bytes written since the previous fetch, less what was sought back over.",
  ["histories", "inputs"], "all interleavings of writes, fetches, discards and size queries over any set of stream indices in any first-use order",
  NOTEST + "isolation and first-use order are properties of histories.",
  ["streams_buffer.go", "direct_pipeline.go", "data_pipeline.go"], [("buffer per stream index", "streams_buffer.go findOrCreateStreamBuffer"), ("append/reset", "direct_pipeline.go Write/Fetch")],
  ["DataPipeline API"])
p("C09", "Queue, ring buffer and linked list behave as their sequence models",
  "Under every sequence of operations the growable queue is an unbounded double-ended sequence, the ring buffer is a bounded sequence that drops its oldest element when pushed while full and yields the zero value when popped empty, and the linked list is an indexed sequence: contents, order, size, head, tail, indexed access and bulk views always agree with the model. Reading an end or index that does not exist fails loudly instead of inventing an element.",
  ["histories"], "all operation sequences, initial capacities and wrap positions",
  "TestQueue compares nothing, TestRingBuffer fails before reaching its loop, TestLinkedList only removes index 0: wrap positions, growth while wrapped and middle/last removals are unexplored.",
  ["collections/queue.go", "collections/ring_buffer.go", "collections/linked_list.go"], [("grow while wrapped", "collections/queue.go Push"), ("modular indices", "collections/ring_buffer.go"), ("relinking", "collections/linked_list.go Remove")],
  ["return values of every operation"])
p("C10", "Reference counting: exactly one releaser is the last, under any schedule",
  "For any concurrent use by holders that each release once per reference they own, the counter behaves as an atomic integer starting at one: every reading is a value the count really had, exactly one release reports that it dropped the last reference, and it is the one that brought the count to zero. Counting is free of data races, and the payload handed out is the one last set.",
  ["schedules", "histories"], "all schedules of concurrent refer/release/use-count calls",
  "The single test is sequential, on one goroutine.",
  ["collections/reference_counter.go"], [("atomic add and compare with the result", "collections/reference_counter.go Release")],
  ["return values with call/return times", "race detector"])
p("C11", "Recycled packets carry nothing over and are never shared",
  "A packet obtained from the packet constructors is indistinguishable from a fresh one in all its visible fields except those just given, whatever was stored in, derived from or attached to the recycled object before it was freed, including cached format conversions and buffer allocators. Two live packets are never the same object, and constructing and freeing packets from many goroutines is free of data races.",
  ["histories", "schedules"], "all sequences of construct, use, convert, free; any number of goroutines",
  NOTEST + "stale state only shows after a specific use of the previous owner of the object.",
  ["av_packet.go", "packet_utils.go"], [("reset on free", "av_packet.go FreePacket"), ("pool", "av_packet.go PacketPool")],
  ["packet fields after construction", "conversion results", "race detector"])
p("C12", "Start-code scanning and NAL splitting find every unit boundary exactly",
  "For any bytes, the start-code search reports the first start code that is followed by a header byte, with the right header position, start position and length (three, or four when a zero precedes), or nothing if there is none. Splitting a stream that begins with a start code yields pieces that concatenate to the input, begin with a start code and contain no further unit, so the payloads are the stream's units in order; removing a start code removes exactly it.",
  ["inputs"], "all byte strings, in particular all short strings over the bytes that matter, and all unit sequences with any mix of start-code lengths",
  "No test exercises these functions on fixed data that is present in the repository; boundaries depend on byte patterns that samples rarely hit.",
  ["avc/util.go"], [("skip-ahead scan", "avc/util.go FindStartCode"), ("splitting", "avc/util.go SplitNalU")],
  ["return values, callback pieces"])
p("C13", "Annex-B and length-prefixed framing convert without changing NAL units",
  "Converting an access unit between Annex-B and length-prefixed framing, in both directions and for H.264 and H.265 with every length-field size the function takes, yields the same NAL units byte for byte in the same order, every one exactly once, with the reported size equal to the bytes produced and nothing written beyond it; only H.264 SEI units are dropped by the slice-oriented length-prefixed to Annex-B conversion. Extra data passed along is inserted exactly once, before the first random-access picture (for H.264 only when no parameter set precedes it).",
  ["inputs"], "all sequences of NAL units of every type and size, start-code mixes, length sizes and extra data",
  "No test converts anything; header values, empty units, start-code mixes and multi-slice pictures are input properties.",
  ["avc/util.go", "hevc/util.go"], [("rewriting loops", "avc/util.go AVCC2AnnexB, AnnexB2AVCC, Mp4ToAnnexB; hevc/util.go Mp4ToAnnexB")],
  ["output buffers and return values"])
p("C14", "Packet format conversion is faithful, self-contained at key frames, repeatable",
  "Converting a video packet to the other framing gives its NAL units unchanged in order (H.264 SEI may be dropped towards Annex-B), and an Annex-B key frame always starts with parameter sets: its own, or those of the stream placed in front. The packet's own data and metadata are untouched, repeating the conversion gives the same bytes, a packet already in the target framing or of another codec is passed through, and memory requested from the packet's allocator is always large enough and is what the result lives in.",
  ["inputs", "histories"], "all packets: both framings and codecs, any number and size of NAL units, key or not, any stream configuration including none, any length size, with or without custom allocator",
  NOTEST + "sizes, counts and configuration variants are unbounded.",
  ["packet_utils.go", "av_packet.go"], [("conversion with cache", "packet_utils.go AVCCPacket2AnnexB / AnnexBPacket2AVCC"), ("buffer sizing", "packet_utils.go")],
  ["returned bytes", "allocator calls", "packet fields"])
p("C15", "H.264 configuration records round-trip and yield exact parameter sets",
  "Parsing any well-formed AVC decoder configuration record yields its fields and all its SPS and PPS byte for byte in order, each prefixed with a start code and independent of the input memory; serialising parameter sets yields a record that a conforming parser reads back to the same sets with the profile, compatibility and level of the SPS. Both conversions of a record to Annex-B extra data give all its parameter sets in order, and a record that is cut off or has no SPS or PPS is rejected with an error, as are parameter sets that no record can express (too many or too long).",
  ["inputs"], "all records: any number and size of parameter sets, any header values, every truncation point, trailing extension bytes",
  "The test parses one record with one SPS and one PPS and compares nothing.",
  ["avc/mp4.go", "avc/util.go", "avc/sps.go"], [("Marshal/Unmarshal", "avc/mp4.go"), ("extra data to Annex-B", "avc/mp4.go ExtraDataToAnnexB, avc/util.go M4VCExtraDataToAnnexB")],
  ["returned records, bytes and errors"])
p("C16", "H.265 configuration records round-trip and yield exact parameter sets",
  "Parsing any well-formed HEVC decoder configuration record yields its fields and all its VPS, SPS and PPS byte for byte in order, whatever the order and number of its arrays and whatever other array types it holds, each prefixed with a start code and independent of the input memory; serialising parameter sets yields a record that a conforming parser reads back to the same sets with the profile, tier, level, chroma format, bit depths and temporal layers of the SPS. Conversion to Annex-B extra data gives all parameter sets, VPS first, then SPS, then PPS, and a record that is cut off or lacks any of the three is rejected with an error, as are parameter sets that no record can express (too many or too long).",
  ["inputs"], "all records: any array order, counts and sizes, any header values, every truncation point",
  "The test parses one record with one set of each kind in the usual order and compares nothing.",
  ["hevc/mp4.go"], [("Marshal/Unmarshal/ExtraDataToAnnexB", "hevc/mp4.go")],
  ["returned records, bytes and errors"])
p("C17", "H.264 SPS parsing reports the coded picture size, rate and profile",
  "For every valid H.264 sequence parameter set, with or without start code, the parser reports the cropped display width and height, profile, constraint flags, level, identifier and, when timing is present, the frame rate that the bitstream syntax defines, whatever optional syntax (scaling lists, picture-order types, chroma formats, field coding, cropping, VUI) and emulation-prevention bytes it contains. An SPS that ends before the picture size is complete is rejected.",
  ["inputs"], "all valid SPS syntax combinations and values",
  "One fixed SPS is parsed and its result only printed.",
  ["avc/sps.go", "bufio/golomb_reader.go"], [("syntax walk", "avc/sps.go ParseSPS")],
  ["returned SPS"])
p("C18", "H.265 SPS parsing reports the coded picture size",
  "For every valid H.265 sequence parameter set, with or without start code, the parser reports the display width and height after the conformance window, whatever sub-layer profile/level syntax, chroma format and emulation-prevention bytes it contains. An SPS that ends before the picture size is complete is rejected.",
  ["inputs"], "all valid SPS syntax combinations and values",
  "One fixed SPS is parsed and its result only printed.",
  ["hevc/sps.go", "bufio/golomb_reader.go"], [("syntax walk", "hevc/sps.go ParseSPS/parsePTL")],
  ["returned SPS info"])
p("C19", "Key-frame detection follows the first coded picture of the access unit",
  "An Annex-B access unit made of any number of delimiter, parameter-set and SEI units followed by coded slices is classified as key frame exactly when its first slice is an IDR slice (H.264) or a random-access slice of types 16 to 23 (H.265), whatever the start-code lengths, reference/layer bits and payload bytes; data without any coded slice and other codecs are not key frames.",
  ["inputs"], "all access units of the given shape, for both codecs and through the codec-independent entry point",
  "TestUtil needs a file that is not in the repository; nothing else calls it.",
  ["avc/util.go", "hevc/util.go", "packet_utils.go"], [("unit walk", "avc/util.go IsKeyFrame, hevc/util.go IsKeyFrame")],
  ["return value"])
p("C20", "Codec configuration views agree and can be shared between goroutines",
  "A video configuration built from raw parameter sets, from a key frame, or from a configuration record describes the same stream: same dimensions, same parameter sets, Annex-B extra data holding exactly those sets in order (VPS, SPS, PPS), and record extra data that parses back to them. Reading any view any number of times, from any number of goroutines at once, always gives the same bytes and is free of data races.",
  ["inputs", "schedules"], "all parameter sets, all construction routes, any number of concurrent readers",
  "The root package has no tests; concurrency is never exercised.",
  ["codec_paraments.go", "video_stream.go", "avc/mp4.go", "hevc/mp4.go"], [("derived views", "codec_paraments.go AnnexBExtraData/MP4ExtraData"), ("extraction from key frames", "avc/util.go, hevc/util.go ParseExtraDataFromKeyNALU")],
  ["CodecData methods", "race detector"])
p("C21", "AAC headers round-trip between ADTS, AudioSpecificConfig and parameters",
  "An ADTS header written for given MPEG version, profile, sampling index, channel configuration and frame length reads back to exactly those values (protection absent, valid sync word), every bit field of any ADTS header is reported as coded, and data without sync word is rejected. The audio-specific configuration derived from an ADTS header describes the same object type, sampling rate and channels, parameters extracted from a frame match it together with the right header length, and mapping a standard sampling rate to its index inverts the index-to-rate mapping.",
  ["inputs"], "all values of all header fields, all standard sampling rates and channel configurations",
  "No test touches AAC headers.",
  ["utils/aac_util.go", "video_stream.go"], [("bit packing", "utils/aac_util.go SetADtsHeader/ReadADtsFixedHeader"), ("config derivation", "utils/aac_util.go ADtsHeader2MpegAudioConfigData/ParseMpeg4AudioConfig")],
  ["return values"])
p("C22", "Malformed media data is rejected without crashing, hanging or being modified",
  "Feeding arbitrary, truncated or corrupted bytes to any parser, splitter, classifier or converter of elementary streams, configuration records, SPS, ADTS or audio configuration data, or to a demuxer, ends promptly in an error or a defined result: it never panics, never loops forever, never allocates out of proportion to the input and never changes the input bytes. After bad input a demuxer still handles good input.",
  ["inputs", "fault_sequences"], "all byte strings, in particular every truncation and mutation of valid structures, and bad input at any point of a stream",
  "Every test feeds valid data only.",
  ["avc/util.go", "avc/mp4.go", "avc/sps.go", "hevc/util.go", "hevc/mp4.go", "hevc/sps.go", "utils/aac_util.go", "video_stream.go", "codec_paraments.go", "packet_utils.go", "demuxer.go"],
  [("bounds-checked reader", "bufio/bytes_buffer.go peekN"), ("error returns", "all parsers")],
  ["return or panic of every call", "CPU time and memory of the process", "input bytes before/after"])
p("C23", "Bit-level reading and writing are exact inverses",
  "Writing a value into any bit range changes exactly those bits and reading the range gives the value back; sequential readers and writers consume exactly what they are asked to, and never touch memory outside their slice. Exponential-Golomb codes, unsigned and signed, decode to the value that was encoded, consume exactly their code bits, work over any conforming byte source and report an error when the source ends.",
  ["inputs", "histories"], "all bit offsets, widths up to 64, values, buffer sizes and mixed sequences of field reads",
  "TestBitsReader prints one value; Golomb decoding is not tested.",
  ["bufio/bits_reader.go", "bufio/bits_writer.go", "bufio/golomb_reader.go", "bufio/util.go"], [("bit loops", "bufio/bits_reader.go, bits_writer.go"), ("Exp-Golomb", "bufio/golomb_reader.go")],
  ["return values, buffer contents, reader positions"])
p("C24", "Byte readers and writers never leave their window and fail without effect",
  "Every read or write on a byte reader or writer either succeeds, transfers exactly the big-endian bytes at the current position and advances by exactly that size, or reports an error and changes neither position nor data; it succeeds exactly when the bytes fit in the window, for any size and any seek, forwards or backwards, including negative and huge ones. Position, readable count, remaining and written views always agree.",
  ["histories", "inputs"], "all operation sequences, sizes over the whole integer range, and buffer lengths including empty",
  "No test uses these types directly.",
  ["bufio/bytes_buffer.go", "bufio/bytes_reader.go", "bufio/bytes_wirter.go", "bufio/util.go"], [("window check", "bufio/bytes_buffer.go peekN")],
  ["return values, errors, buffer contents"])
p("C25", "Timestamp conversion is accurate, monotone and stable",
  "Converting a timestamp or duration between timebases gives the exact rational value to within one tick of the target timebase, keeps sign and order, is the identity for equal timebases, and never drifts over the range of real media timestamps. A packet's converted decode time, presentation time, duration and composition offset follow the same conversion of its own fields and leave the packet unchanged.",
  ["inputs"], "all timestamps up to 2^48 in magnitude, negative ones included, and all timebases in media use",
  NOTEST + "rounding errors depend on the value pair.",
  ["packet_utils.go", "av_packet.go"], [("rescaling", "packet_utils.go ConvertTs")],
  ["return values"])
p("C26", "Independent demuxers and parsers can run concurrently without interference",
  "Any number of demuxers, buffers, converters and parsers used each by one goroutine, at the same time, behave exactly as they would alone, although they share the packet pool: no packet, payload or track of one ever shows up in or changes another. There are no data races, also when several goroutines parse or convert the same read-only input.",
  ["schedules", "histories"], "all schedules of independent users",
  "No test starts a goroutine.",
  ["av_packet.go", "demuxer.go", "streams_buffer.go", "packet_utils.go", "codec_paraments.go"], [("no shared mutable state except the pool", "av_packet.go PacketPool")],
  ["per-instance callbacks vs. model", "race detector"])
p("C27", "Elementary-stream dump files hold exactly the delivered stream",
  "The file-dumping handler produces one file per announced track, named after its media type, index and codec, whose content after a run is exactly the delivered packets of that track in order (video as Annex-B, with parameter sets in front of key frames) and nothing else, also when a file of that name already existed. Tracks never mix.",
  ["histories", "inputs"], "all track mixes and packet sequences, existing files of any content",
  NOTEST + "the handler is never run.",
  ["handler.go", "packet_utils.go"], [("file per track", "handler.go OnNewTrack"), ("Annex-B conversion", "handler.go OnPacket")],
  ["files in a scratch directory"])
p("C28", "Track registries keep dense indices and one muxed track per media type",
  "Adding a track to a muxer returns its position and keeps at most one track per media type: a second one is refused with an error and changes nothing. Track registries return tracks by index in insertion order, find the first track with a given codec or media type and nothing when there is none.",
  ["histories"], "all sequences of additions and lookups over all media types and codecs",
  NOTEST + "the registry is never exercised.",
  ["muxer.go", "tracks.go", "track.go"], [("duplicate check", "muxer.go AddTrack"), ("linear lookup", "tracks.go")],
  ["return values"])
p("C29", "Memory stays bounded when consumers keep up",
  "As long as the amount of unreleased data is bounded, running any number of packets through the block buffers, stream pipelines, queues, lists, packet conversion or an auto-freeing demuxer uses memory bounded by a constant that does not grow with the number of packets processed: released space is reused, and a queue or ring does not keep alive what was popped from its head.",
  ["histories"], "arbitrarily long steady-state histories with any packet-size distribution bounded by the buffer capacity",
  "No test runs long enough or measures memory.",
  ["collections/buffer_rb.go", "collections/buffer_direct.go", "collections/queue.go", "collections/linked_list.go", "streams_buffer.go", "demuxer.go"], [("space reclaimed on release", "collections/buffer_rb.go Pop, buffer_direct.go Pop"), ("packet pool", "av_packet.go")],
  ["live heap and total allocation of the process over the run"])
p("C30", "Random helpers respect their contract under concurrent use",
  "Random strings have exactly the requested length and only letters and digits, random integers lie in the closed requested range with both bounds attainable (also when they are equal), an inverted range is refused, and calling the helpers from many goroutines is free of data races.",
  ["inputs", "schedules"], "all lengths, all ranges including single-value and negative ones, any number of goroutines",
  "The helpers have no test.",
  ["utils/random_util.go"], [("range arithmetic", "utils/random_util.go RandomIntInRange")],
  ["return values", "race detector"])
p("C31", "Remuxing between containers preserves the stream",
  "A stream relayed through any chain of demuxers — each one's packets converted to the next container's packing, ADTS framing and timebase and written into its buffers, each one's announced configuration used to open the next — arrives as it went in: the same tracks with codec, picture size, parameter sets and audio configuration, every packet but the ones still held back exactly once and in order, the same NAL units (H.264 SEI may be dropped, parameter sets may be added in front of key frames) or audio payload, the same key flags, and times within one tick of the coarser clock per conversion. This holds however late consumers release packets and however many relays run at once.",
  ["histories", "inputs", "schedules"], "all chains of containers, codecs, length-field sizes, packet sequences, release delays and numbers of concurrent relays",
  "No test connects two parts of the library; a relay fails when two parts disagree although each alone looks right.",
  ["demuxer.go", "packet_utils.go", "codec_paraments.go", "streams_buffer.go", "video_stream.go", "utils/aac_util.go", "av_packet.go"],
  [("packing conversion", "packet_utils.go AVCCPacket2AnnexB, AnnexBPacket2AVCC"), ("configuration views", "codec_paraments.go MP4ExtraData, AnnexBExtraData"), ("delivery", "demuxer.go processBufferedPacket")],
  ["tracks and packets of the last stage vs. what went into the first", "race detector"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
