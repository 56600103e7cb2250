#!/usr/bin/env python3
# Source of /verif/properties.jsonl (python3 tools/props.py rewrites it).
import json, os
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     **({"observe_at": observe} if observe else {}))))

prop("P01", "Bit-level reads return exactly the requested bits, or fail without moving",
 "Reading n bits (0 to 64) at any bit position of any buffer returns exactly those bits, most significant first, and advances the position by n; if fewer than n bits are left it returns an error and leaves the position where it was. Single-flag, unsigned and signed Exp-Golomb reads agree with their specification on every encoded value that fits the result type, and reject codes that do not fit.",
 "all buffers, start positions and widths", "tests read a handful of fixed buffers; alignment x width x end-of-buffer combinations are not enumerated",
 ["pkg/bits/read.go"], [("bit reader", "pkg/bits/read.go: HasSpace, ReadBits, ReadBitsUnsafe, ReadFlag, ReadGolombUnsigned, ReadGolombSigned")])
prop("P02", "Bit-level writes store exactly the given bits and touch nothing else",
 "Writing a value that fits in n bits (or a flag) at any bit position of a buffer that is zero from that position on makes a subsequent read of n bits at that position return that value, advances the position by n, and leaves every bit outside the written range unchanged.",
 "all values, widths, positions and surrounding contents", "tests check a few fixed values at fixed offsets",
 ["pkg/bits/write.go"], [("bit writer", "pkg/bits/write.go")])
prop("P03", "Video bitstream parsers never panic or hang on any input",
 "Every exported decoder and inspection function of the video codecs (H.264, H.265, AV1, VP8, VP9, MPEG-4 Video, JPEG) either succeeds or returns an error/neutral result for every byte string: it never panics, never loops forever, and accessors of a successfully decoded structure do not panic either.",
 "all byte strings up to the stated lengths, including truncations of valid streams at every point", "unit tests and stored fuzz corpora sample a finite set of inputs",
 ["pkg/codecs/h264", "pkg/codecs/h265", "pkg/codecs/av1", "pkg/codecs/vp8", "pkg/codecs/vp9", "pkg/codecs/mpeg4video", "pkg/codecs/jpeg"],
 [("length checks before every access", "all Unmarshal functions")])
prop("P04", "Audio bitstream parsers never panic or hang on any input",
 "Every exported decoder and inspection function of the audio codecs (MPEG-1 audio, MPEG-4 audio configuration, ADTS, LATM/LOAS, AC-3, E-AC-3, Opus, FLAC, G.711) either succeeds or returns an error for every byte string: it never panics and never loops forever, and accessors of a successfully decoded structure do not panic either.",
 "all byte strings up to the stated lengths, including truncations of valid streams at every point", "unit tests and stored fuzz corpora sample a finite set of inputs",
 ["pkg/codecs/mpeg1audio", "pkg/codecs/mpeg4audio", "pkg/codecs/ac3", "pkg/codecs/eac3", "pkg/codecs/opus", "pkg/codecs/flac", "pkg/codecs/g711"],
 [("length checks before every access", "all Unmarshal functions")])
prop("P05", "Container parsers never panic or hang on any input",
 "The MPEG-TS sub-structure decoders, the fragmented and progressive MP4 parsers and the stream readers either succeed or return an error for every byte string, never panic and never loop forever; using what a successful decode returned (for instance reading sample payloads) does not panic either.",
 "all byte strings up to the stated lengths", "unit tests and stored fuzz corpora sample a finite set of inputs",
 ["pkg/formats/mpegts", "pkg/formats/fmp4", "pkg/formats/pmp4", "internal/mp4"], [("length checks", "Unmarshal functions, box readers")])
prop("P06", "H.264/H.265 access-unit framing round-trips and enforces its limits",
 "Encoding any non-empty list of non-empty NAL units in length-prefixed form and decoding it returns the same list, and likewise for start-code form whenever the units contain no start code and do not end with a zero byte; every successful decode returns only non-empty units, whose concatenation is taken in order from the input. Decoders return an error when the number of units or the total size exceeds the documented maximums or a length prefix points beyond the input.",
 "all lists of NAL units within the bounds and all byte strings", "tests use a few fixed units; limit checks and 3/4-byte start code mixes are sampled",
 ["pkg/codecs/h264/annexb.go", "pkg/codecs/h264/avcc.go"], [("Annex B / AVCC codec", "pkg/codecs/h264/annexb.go, avcc.go")])
prop("P07", "Emulation-prevention removal is the inverse of insertion",
 "For every NAL unit payload, inserting emulation-prevention bytes as the H.264/H.265 specifications prescribe and then removing them returns the original payload; a payload without emulation-prevention sequences is returned unchanged, and the input is never modified.",
 "all payloads", "tests use a handful of fixed arrays",
 ["pkg/codecs/h264/emulation_prevention.go"], [("EmulationPreventionRemove", "pkg/codecs/h264/emulation_prevention.go")])
prop("P08", "AV1 LEB128 and OBU framing round-trip",
 "Every value up to 2^32-1 round-trips through the LEB128 codec using the minimal number of bytes, with the announced size equal to the bytes produced; every list of OBUs encoded as a low-overhead bitstream decodes to the same OBUs (with their size fields removed). Truncated or oversized LEB128 values, sizes beyond the data and unsupported OBU headers are reported as errors.",
 "all values, OBU lists and byte strings within bounds", "tests use fixed samples",
 ["pkg/codecs/av1/leb128.go", "pkg/codecs/av1/bitstream.go", "pkg/codecs/av1/obu_header.go"], [("LEB128", "leb128.go"), ("Bitstream", "bitstream.go"), ("OBUHeader", "obu_header.go")])
prop("P09", "AV1 sequence headers decode to the encoded field values",
 "Decoding a sequence header produced according to the AV1 specification from any field values yields exactly these values (profile, levels, dimensions, colour configuration, subsampling, bit depth), for every combination of the optional parts, and truncating it anywhere gives an error.",
 "all field values and optional-part combinations", "tests decode a few captured headers",
 ["pkg/codecs/av1/sequence_header.go"], [("SequenceHeader.Unmarshal", "pkg/codecs/av1/sequence_header.go")])
prop("P10", "H.264 SPS decode to the encoded field values and picture geometry",
 "Decoding an H.264 sequence parameter set produced according to the specification from any field values yields exactly these values, for every combination of optional parts (high-profile chroma and scaling lists, picture order count types, cropping, VUI, HRD, timing, bitstream restriction); width, height and frame rate derived from it equal the values given by the specification's formulas.",
 "all field values and optional-part combinations within bounds", "tests decode a few captured SPS",
 ["pkg/codecs/h264/sps.go"], [("SPS.Unmarshal, Width, Height, FPS", "pkg/codecs/h264/sps.go")])
prop("P11", "H.265 SPS and PPS decode to the encoded field values and picture geometry",
 "Decoding an H.265 sequence or picture parameter set produced according to the specification from any field values yields exactly these values, for every combination of optional parts; width, height and frame rate derived from it equal the values given by the specification's formulas.",
 "all field values and optional-part combinations within bounds", "tests decode a few captured parameter sets",
 ["pkg/codecs/h265/sps.go", "pkg/codecs/h265/pps.go"], [("SPS.Unmarshal, PPS.Unmarshal", "pkg/codecs/h265")])
prop("P12", "H.264 DTS extraction gives ordered timestamps bounded by the PTS",
 "For every sequence of access units fed to the H.264 DTS extractor, each successful extraction returns a DTS that is not lower than the previously returned one and not greater than the PTS of that access unit (except that, while the amount of reordering is being discovered, it may be the previous DTS plus one millisecond), and otherwise an error is returned; a stream that cannot be reordered (picture order count type 2, or interlaced) gets DTS equal to PTS.",
 "all sequences of access units (picture order counts, PTS, parameter-set changes) within bounds", "tests replay a few recorded sequences; the state machine over histories is not covered",
 ["pkg/codecs/h264/dts_extractor.go"], [("DTSExtractor", "pkg/codecs/h264/dts_extractor.go")], over=("inputs","histories"),
 state=[("expectedPOC, reorderedFrames, pauseDTS", "reordering state carried between access units", "DTSExtractor")])
prop("P13", "H.265 DTS extraction gives ordered timestamps never beyond the PTS",
 "For every sequence of access units fed to the H.265 DTS extractor, each successful extraction returns a DTS not greater than the PTS of that access unit and not lower than the previously returned DTS, and otherwise an error is returned.",
 "all sequences of access units within bounds", "tests replay a few recorded sequences",
 ["pkg/codecs/h265/dts_extractor.go"], [("DTSExtractor", "pkg/codecs/h265/dts_extractor.go")], over=("inputs","histories"))
prop("P14", "MPEG-4 audio configurations round-trip and match the specification",
 "Every valid MPEG-4 audio specific configuration (object type, any 24-bit sample rate including non-table ones, channel layout, SBR/PS extension, frame length and core-coder options) round-trips through encoding and decoding unchanged; decoding a bit string produced according to the specification yields the encoded values, and unsupported or truncated values are rejected. Program configuration elements decode to their field values and to the number of channels of their elements, and the channel count of a raw data block is that of its program configuration or of its first channel element.",
 "all configurations and all bit strings within bounds", "tests use a table of configurations",
 ["pkg/codecs/mpeg4audio/audio_specific_config.go"], [("AudioSpecificConfig", "pkg/codecs/mpeg4audio/audio_specific_config.go")])
prop("P15", "ADTS streams round-trip and are validated",
 "Every list of AAC access units with valid parameters and non-empty units up to the maximum access unit size round-trips through ADTS encoding and decoding unchanged, and parameters that cannot be represented are rejected on encoding; every accepted ADTS stream is a sequence of frames with a valid sync word and lengths that add up to the stream, and anything truncated is rejected.",
 "all packet lists and byte strings within bounds", "tests use two fixed streams",
 ["pkg/codecs/mpeg4audio/adts.go"], [("ADTSPackets", "pkg/codecs/mpeg4audio/adts.go")])
prop("P16", "MPEG-4 LATM/LOAS structures round-trip",
 "Stream multiplex configurations, audio mux elements (with and without in-band configuration) and LOAS sync-stream frames laid out as ISO 14496-3 prescribes decode to the encoded values and encode to the same bytes, with payloads intact and in order; structures that cannot be represented are rejected on encoding instead of being written wrong, and truncated or trailing bytes are rejected on decoding.",
 "all configurations (program/layer shapes, lengths, flags) and payloads within bounds", "tests use a small table",
 ["pkg/codecs/mpeg4audio/stream_mux_config.go", "pkg/codecs/mpeg4audio/audio_mux_element.go", "pkg/codecs/mpeg4audio/audio_sync_stream.go"],
 [("StreamMuxConfig, AudioMuxElement, AudioSyncStream", "pkg/codecs/mpeg4audio")])
prop("P17", "AC-3 and E-AC-3 headers decode to the specified values",
 "AC-3 sync and bit-stream information and E-AC-3 sync frames decode to exactly the field values laid out by the specification, with frame size, sample rate and channel count equal to the specification's tables; reserved codes, wrong sync words and truncated headers are rejected.",
 "all header field values", "tests decode a few captured frames",
 ["pkg/codecs/ac3", "pkg/codecs/eac3"], [("SyncInfo, BSI, Syncframe", "pkg/codecs/ac3, pkg/codecs/eac3")])
prop("P18", "MPEG-1/2 audio frame headers decode to the specified values",
 "For every MPEG-1/2 audio frame header of layers II and III (at least 5 bytes), decoding yields version, layer, bitrate, sample rate, padding and channel mode per the specification's tables, and rejects wrong sync words, reserved or unsupported combinations and truncated headers; frame length and samples per frame follow from them.",
 "all 2^32 headers", "tests decode a few headers",
 ["pkg/codecs/mpeg1audio/frame_header.go"], [("FrameHeader", "pkg/codecs/mpeg1audio/frame_header.go")])
prop("P19", "Opus packet durations and identification headers are exact",
 "The duration computed for an Opus packet equals the frame duration of its configuration times its frame count as RFC 6716 prescribes, for every packet; identification headers round-trip for all field values, and a wrong magic, version or truncated header is rejected.",
 "all packets and headers within bounds", "tests use a small table",
 ["pkg/codecs/opus"], [("PacketDuration2, IDHeader", "pkg/codecs/opus")])
prop("P20", "VP9 frame headers decode to the specified values",
 "VP9 frame headers decode to exactly the encoded field values (profile, key-frame flag, dimensions, colour configuration, subsampling) and invalid markers, sync codes and truncated headers are rejected.",
 "all header field values", "tests decode a few captured headers",
 ["pkg/codecs/vp9"], [("Header", "pkg/codecs/vp9/header.go")])
prop("P21", "FLAC stream info round-trips",
 "FLAC stream-information blocks decode to exactly the field values laid out by RFC 9639 and encode back to the same bytes for all field values; truncated data is rejected.",
 "all field values", "tests decode one captured block",
 ["pkg/codecs/flac"], [("flac structures", "pkg/codecs/flac")])
prop("P22", "JPEG segments round-trip and parse consistently",
 "JPEG markers with an encoder (quantization tables, frame header, restart interval, scan header, Huffman tables) decode back to the values encoded, and decoders reject segments whose announced lengths or counts do not fit the data.",
 "all field values and byte strings within bounds", "tests use fixed segments",
 ["pkg/codecs/jpeg"], [("jpeg segments", "pkg/codecs/jpeg")])
prop("P23", "G.711 companding is exact and stable",
 "For every 8-bit code, A-law and mu-law expansion gives the linear value of the ITU-T G.711 algorithm; for every 16-bit sample, compression gives the code whose expansion is nearest to the sample reduced to the codec's 14-bit precision; expanding a code and compressing again returns the code (up to mu-law's two zeros); sample order and count are preserved and half samples are rejected.",
 "all 256 codes and all 65536 samples", "tests convert a few samples",
 ["pkg/codecs/g711"], [("Alaw, Mulaw", "pkg/codecs/g711")])
prop("P24", "MPEG-4 Video configuration validation follows the start-code structure",
 "A byte string is accepted as MPEG-4 Video configuration exactly when it begins with a visual object sequence start code, every later start code is one allowed in a configuration (video object, video object layer, visual object, user data) and it contains at least one video object and one video object layer start code; nothing else is accepted.",
 "all byte strings within bounds", "tests check two samples",
 ["pkg/codecs/mpeg4video"], [("IsValidConfig", "pkg/codecs/mpeg4video")])
prop("P25", "MPEG-TS timestamp unrolling is exact across wrap-arounds",
 "Feeding the 33-bit truncations of a sequence of true timestamps in which consecutive values differ by less than 2^32 returns the true timestamps relative to the first, for any start value, any number of wrap-arounds and in both directions; results are always congruent to the input modulo 2^33.",
 "all timestamp sequences within the bounded length", "tests cover one wrap in each direction",
 ["pkg/formats/mpegts/time_decoder.go"], [("TimeDecoder", "pkg/formats/mpegts/time_decoder.go")], over=("inputs","histories"))
prop("P26", "MPEG-TS private structures round-trip",
 "Opus control headers and access units, the Opus audio descriptor, the metadata and metadata-STD descriptors and the KLV metadata access-unit cells round-trip unchanged when representable; decoders reject structures whose announced lengths exceed the data.",
 "all field values and payload sizes within bounds", "tests use fixed samples",
 ["pkg/formats/mpegts/substructs"], [("substructs", "pkg/formats/mpegts/substructs")])
prop("P27", "A rewindable reader replays exactly the bytes already consumed",
 "After any sequence of reads and one rewind, further reads return the byte stream from its beginning exactly once and in order with any read sizes, with errors of the source delivered at the same byte position; reading beyond the replay limit fails instead of losing bytes.",
 "all read-size histories and source chunkings within bounds", "tests use one history",
 ["pkg/rewindablereader/reader.go"], [("Reader", "pkg/rewindablereader/reader.go")], over=("inputs","histories"))
prop("P28", "The in-memory seekable buffer behaves like a file",
 "Any sequence of writes (through any of its write methods) and seeks on the in-memory seekable buffer leaves the same bytes and reports the same positions and errors as the same operations on a file: overwriting in the middle, extending past the end with zeros and rejecting negative positions.",
 "all operation histories within bounds", "tests use a couple of histories",
 ["pkg/formats/fmp4/seekablebuffer"], [("Buffer", "pkg/formats/fmp4/seekablebuffer")], over=("inputs","histories"))
prop("P29", "MPEG-TS buffering delivers the packet stream unchanged whatever the chunking",
 "The MPEG-TS input buffering delivers the bytes of the source in order in pieces no larger than requested, independent of how the source splits them, and reports an error when a source unit is not a whole number of 188-byte packets; source errors are passed on.",
 "all chunkings and read sizes within bounds", "tests use one chunking",
 ["pkg/formats/mpegts/buffered_reader.go", "pkg/formats/mpegts/reader.go"], [("BufferedReader", "pkg/formats/mpegts")], over=("inputs","histories"))
prop("P30", "MPEG-TS muxing then demuxing returns the same access units",
 "Writing access units of any supported codec with the MPEG-TS writer and reading the produced stream with the reader delivers the same tracks and the same access units in the same order with the same timestamps (modulo 33 bits).",
 "all payloads, timestamps and track configurations within bounds", "tests use fixed samples",
 ["pkg/formats/mpegts/writer.go", "pkg/formats/mpegts/reader.go"], [("Writer", "writer.go"), ("Reader", "reader.go")])
prop("P31", "Fragmented MP4 parts round-trip",
 "Every list of parts that can be written in fragmented MP4 form (any tracks, base times, sample durations, composition offsets, sync flags and payloads) reads back equal, and offsets in the written form address exactly the sample payloads (up to the 19200 samples per run that the reader accepts). Parts of other producers that use the supported forms (per-run or per-track default durations, sizes and flags, separate flags for the first sample, several runs, composition offsets of version 0 or 1) read with the values they specify.",
 "all parts within bounds", "tests use fixed samples",
 ["pkg/formats/fmp4/parts.go", "pkg/formats/fmp4/part.go", "pkg/formats/fmp4/part_track.go"], [("Part.Marshal, Parts.Unmarshal", "pkg/formats/fmp4")])
prop("P32", "Fragmented MP4 initialization segments round-trip",
 "Every initialization segment with at least one track and non-zero time scales that can be written (tracks, time scales, user data and codec parameters of each supported codec) reads back equal; codec parameters that fit in their fields are accepted and those that do not are rejected by the encoder instead of being altered; segments that lack or duplicate a required box, or end before the last sample entry, are rejected.",
 "all codec parameters within bounds", "tests use fixed samples",
 ["pkg/formats/fmp4/init.go", "internal/mp4"], [("Init.Marshal/Unmarshal", "pkg/formats/fmp4/init.go")])
prop("P33", "Progressive MP4 presentations round-trip",
 "Every presentation (at least one track, non-zero time scales, less than 4 GiB of payload) that can be written in progressive MP4 form reads back, up to the documented maximum number of samples, with the same tracks and samples: durations, composition offsets, sync flags, sizes, and payload bytes at the addressed offsets; larger ones are rejected by the writer. Presentations of other producers whose sample tables use the supported forms (any chunking with 32-bit chunk offsets, run-length-coded times and offsets, sync sample tables) read with the values they specify, and read errors of the source are reported.",
 "all sample tables within bounds", "tests use fixed samples",
 ["pkg/formats/pmp4"], [("Presentation", "pkg/formats/pmp4")])
prop("P34", "Decoding allocates memory bounded by the input and the documented limits",
 "No decoder allocates memory out of proportion with its input: announced counts and sizes are checked against the data or a documented maximum before memory is reserved for them.",
 "all byte strings within bounds", "tests do not measure allocations",
 ["pkg/codecs", "pkg/formats"], [("count checks before make", "Unmarshal functions")])
prop("P35", "Decoding into a reused structure equals decoding into a fresh one",
 "Decoding into a structure that already holds the result of a previous decode gives the same result as decoding the same bytes into a fresh structure, for every pair of inputs.",
 "all pairs of byte strings within bounds", "tests always decode into fresh structures",
 ["pkg/codecs", "pkg/formats"], [("field initialisation", "Unmarshal functions")], over=("inputs","histories"))
prop("P36", "Random-access detection is exact",
 "An access unit is reported as random access exactly when it contains a unit of a random-access type of its codec (H.264 IDR, H.265 IDR or CRA, AV1 sequence header, VP8 or VP9 key frame), independent of the other units and of their order.",
 "all access units within bounds", "tests use fixed samples",
 ["pkg/codecs/h264", "pkg/codecs/h265", "pkg/codecs/av1"], [("IsRandomAccess", "pkg/codecs")])
prop("P37", "MP4 sample conversion preserves access units",
 "Filling an MP4 sample from an access unit and reading the access unit back returns the same units for H.264, H.265 and AV1, with the sync flag set exactly for random-access units and the composition offset equal to PTS minus DTS; invalid payloads are reported as errors.",
 "all access units within bounds", "tests use fixed samples",
 ["pkg/formats/fmp4/sample.go", "pkg/formats/pmp4"], [("Sample.FillH26x, GetH26x, FillAV1, GetAV1", "pkg/formats/fmp4")])
prop("P38", "MPEG-TS streams produced by the writer are well formed",
 "Whatever the tracks, units and order of writes, the MPEG-TS writer produces whole 188-byte packets with continuous counters and valid stuffing, in which tables (with a valid checksum, the type, PID and language of each track, and the PID that carries clocks) precede all units and every random-access unit of the leading track (the first track written to); clocks are 100 ms before decoding time, are present on the leading track only and on at least one unit out of three of it; random-access indicators, timestamps, stream IDs and sizes of units are exact; errors of the destination are returned.",
 "all payloads, timestamps and write orders within bounds", "tests compare a few streams",
 ["pkg/formats/mpegts/writer.go", "pkg/formats/mpegts/track.go"], [("Writer", "pkg/formats/mpegts/writer.go")], over=("inputs","histories"))
prop("P39", "MPEG-TS reading recovers from garbage, corrupt units and unknown data",
 "Bytes between packets, units with invalid contents, units without valid timestamps, units of undeclared tracks, packets without units and lost packets do not prevent the MPEG-TS reader from delivering the other units unaltered: they are skipped and, when detectable, reported through the decode-error callback (a lost packet may also take away the unit that precedes its own in the same track). Read fails only with the error of the source (returned as is, after the units that precede it) or of a data callback, which does not prevent further reads.",
 "all contents and positions of damages within bounds", "tests use a few damaged streams",
 ["pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/robust_demuxer.go", "pkg/formats/mpegts/pre_demuxer.go"], [("Reader.Read, robustDemuxer, preDemuxer", "pkg/formats/mpegts")], over=("inputs","histories"))
prop("P40", "MPEG-TS track detection follows the program map",
 "Opening a stream of any producer returns one track per elementary stream of the program map, in order, with its PID, the language of its first language descriptor, and the codec given by its stream type (private data: by a single registration, Opus or KLVA, or by a subtitling descriptor; metadata: by a single KLVA metadata descriptor) with the parameters stored in descriptors or in the first unit; anything else is returned as unsupported instead of failing.",
 "all stream types, descriptors and PIDs within bounds", "tests use a few program maps",
 ["pkg/formats/mpegts/track.go", "pkg/formats/mpegts/reader.go"], [("findCodec, Track.unmarshal", "pkg/formats/mpegts/track.go")])
prop("P41", "Operations neither modify their inputs nor share state between calls",
 "Decoders, encoders, muxers and demuxers do not modify what they are given (including the spare capacity of slices), never change a result that they returned earlier, and give results that do not depend on operations performed before on other data.",
 "all pairs of inputs within bounds", "tests perform operations once, on data that is not looked at afterwards",
 ["pkg/codecs", "pkg/formats"], [("encoders and decoders", "pkg/codecs, pkg/formats")], over=("inputs","histories"))
prop("P42", "MP4 headers describe tracks and samples exactly",
 "Initialization segments and presentations announce, for each track, its ID, time scale, durations, kind, dimensions or channels and rate, bitrates and a configuration record equal to the one that the specification derives from the codec parameters (profile, tier, level, chroma format, bit depth, parameter sets), in the prescribed boxes; sample tables give each sample its duration, offset, sync flag, size and position inside the media data. Errors of the destination and of sample providers are returned.",
 "all codec parameters and sample lists within bounds", "tests compare a few files",
 ["pkg/formats/fmp4/init.go", "pkg/formats/fmp4/init_track.go", "pkg/formats/pmp4", "internal/mp4"], [("Init.Marshal, Presentation.Marshal, WriteCodecBoxes", "pkg/formats/fmp4, pkg/formats/pmp4, internal/mp4")])
prop("P43", "DTS extraction follows regular reordered streams exactly",
 "For H.264 and H.265 streams with a constant frame interval, in which groups of up to five frames start (in decoding order) with the frame displayed last, DTS extraction accepts every access unit from the first random-access one, in any order of the other frames for H.264 (picture order count increasing by 2 per frame, or by 1, 2 or 4 without reordering; any width of the count, with wrap-around) and in any hierarchy for H.265 (reference sets in slices or in the SPS, closed and open groups of pictures). This includes streams in which two such patterns alternate. Within 30 access units the DTS becomes evenly spaced by exactly the frame interval, and for H.265 it is as late as the reordering allows (at most two frames earlier for H.264).",
 "all reordering patterns, starting timestamps and stream lengths within bounds", "tests replay a few recorded sequences and compare a few timestamps",
 ["pkg/codecs/h264/dts_extractor.go", "pkg/codecs/h265/dts_extractor.go"], [("DTSExtractor", "pkg/codecs/h264/dts_extractor.go"), ("DTSExtractor", "pkg/codecs/h265/dts_extractor.go")], over=("inputs","histories"),
 state=[("reorderedFrames, pause, expectedPOC, pocIncrement", "reordering discovered so far", "DTSExtractor")])
prop("P44", "Type numbers and names of codec units follow the specifications",
 "Exported numbers of H.264 and H.265 NAL unit types, AV1 OBU types, JPEG markers, MPEG-4 Video start codes, MPEG-4 audio object types, MPEG-1 audio channel modes and frame lengths in samples are those of the specifications, and for every value of a NAL unit type the name is that of the type; asking for the name of any value never fails.",
 "all values of the types", "tests ask for two names",
 ["pkg/codecs"], [("NALUType.String", "pkg/codecs/h264/nalu_type.go"), ("NALUType.String", "pkg/codecs/h265/nalu_type.go")])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
