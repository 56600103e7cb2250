ORACLES = {
"P01": "Oracle: the bit at position i of a buffer is `b[i/8]>>(7-i%8)`, Exp-Golomb codes are built from their definition. All bytes of the buffer symbolic; width, position and buffer length are enumerated exhaustively (0..64 bits, every alignment, up to 9 bytes), so for reads of up to 64 bits this is complete up to translation of the position.",
"P02": "Oracle: read-back plus comparison of every other bit. Values and the surrounding bytes symbolic; widths and positions enumerated.",
"P03": "All bytes symbolic for every length up to the bounds, plus valid streams of the encoders in `bw` (symbolic fields) truncated or corrupted at each position. Every index, slice bound, division, shift, conversion, nil dereference and allocation of the code and of the libraries it calls is an assertion. Loops that cannot be bounded are reported (and replayed natively to distinguish hangs).",
"P04": "As P03, for audio codecs; LATM and program config elements are driven with enumerated shapes because their counts determine the layout.",
"P05": "As P03, for containers. MP4: box trees with concrete types and sizes from `forms.go` and from the encoders, where the fields of one box after the other are symbolic (and sizes and counts at a time), plus raw symbolic bytes of small lengths; MPEG-TS: streams of the writer in which each byte position of the tables, packet headers and PES headers is symbolic, plus symbolic packets. go-mp4 and go-astits are executed too, not modelled. Excluded in the quick tier: symbolic values at table positions 4,5,7,15,16,20,21,23,48,51 of the two-section TS stream (section lengths; they are covered by the thorough tier as far as time allows).",
"P06": "Oracle: independent framing written from ISO 14496-15 5.3.4.2.1 and H.264 Annex B. Bytes symbolic, lengths and counts enumerated, including 49/50/51 units and sizes around the 8 MiB limit (content concrete there).",
"P07": "Oracle: an encoder that inserts prevention bytes. Payload symbolic, every length up to the bound.",
"P08": "Oracle: LEB128 definition and size-prefixed OBU layout.",
"P09": "Oracle: a bit writer (`bw.W`) that lays out AV1 5.5 from symbolic fields; combinations of optional parts are enumerated or sampled by a hash of the case number (`bw.Opt`); the decoded structure is compared field by field, each truncation must fail.",
"P10": "As P09 for H.264 7.3.2.1.1 and Annex E; Exp-Golomb values have concrete code lengths and symbolic values; geometry is compared with the formulas 7-13 onwards, E-2.",
"P11": "As P10 for H.265 7.3.2.2, 7.3.2.3 and Annex E.",
"P12": "The extractor is driven with sequences of access units with symbolic POC, PTS, NAL reference flags and kinds; after each step the claim is asserted on the result. The history length is the bound.",
"P13": "As P12, with several SPS/PPS forms, reorder depths, and a change of parameter sets in the middle.",
"P14": "Oracle: bit writer from ISO 14496-3 tables 1.15, 4.1 and 4.2 with symbolic fields.",
"P15": "Oracle: ADTS header layout; list shapes enumerated, sizes up to the 13-bit limit with concrete interior.",
"P16": "Oracle: bit writer from ISO 14496-3 tables 1.41 to 1.45; shapes (programs, layers, subframes, optional parts) enumerated, values symbolic.",
"P17": "Oracle: ATSC A/52 tables written out in the harness; all header bytes symbolic.",
"P18": "Oracle: ISO 11172-3/13818-3 tables written out in the harness; all header bytes symbolic.",
"P19": "Oracle: RFC 6716 table 2 and section 3.2; all packet bytes symbolic. The byte order of the identification header (big endian, whereas RFC 7845 says little endian) is pinned by existing tests; the harness accepts what is pinned.",
"P20": "Oracle: VP9 6.2 bit writer.",
"P21": "Oracle: RFC 9639 8.2 layout, every byte symbolic, both directions.",
"P22": "Oracle: segment layouts of ISO 10918-1 and RFC 2435.",
"P23": "Oracle: G.711 expansion algorithm; nearest-code check against all 256 expansions, with the sample symbolic.",
"P24": "Oracle: an independent scanner for start codes; every byte symbolic.",
"P25": "Oracle: 64-bit arithmetic; a history of symbolic true timestamps, whose truncations are fed.",
"P26": "Oracle: layouts of ETSI TS 102 366 / the Opus-in-TS draft / ISO 13818-1 2.12; lengths enumerated and values symbolic.",
"P27": "Model: a byte array and a position; the reads, their sizes and the behaviour of the source (short reads, errors with or without data) are enumerated or symbolic.",
"P28": "Model: a file as a byte array; operations chosen symbolically among all write methods and seeks.",
"P29": "Model: the concatenation of what the source delivers; the chunking and error positions are enumerated.",
"P30": "The real writer, go-astits and the real reader are executed end to end; payload bytes, timestamps (in ranges) and flags symbolic; kinds, sizes and orders enumerated. Known finding: a KLV, DVB or audio unit larger than 65535 bytes is lost when the next unit of its track fits in a single packet (go-astits drops the flushed unit).",
"P31": "Encode with the real code, decode with the real code, compare; plus files laid out by the harness in each supported form (default values, first-sample flags, offsets) decoded with the real code; excluded: runs of more than 19200 samples, which the reader rejects by design.",
"P32": "As P31, for initialization segments; each codec, boundary values of each field and out-of-range ones. Preconditions: at least one track, non-zero time scale.",
"P33": "As P31, for presentations; `GetPayload` must give the bytes; foreign layouts with chunk tables of any shape, several sample descriptions, absent tables.",
"P34": "The engine sums every allocation (make, append growth, string conversion, maps); the harness states a limit proportional to the input plus documented maximums; sizes are symbolic, so an unchecked count is a counterexample.",
"P35": "Two decodes into one structure (first one from arbitrary bytes or arbitrary contents via `vnd.Dirty`) compared with a decode into a fresh structure. Fields documented as inputs (for instance the configuration of `AudioMuxElement`) are set before both.",
"P36": "Oracle: exists-formula over the units' types; bytes symbolic.",
"P37": "Oracle: the units themselves and the P36 formula.",
"P38": "Oracle: an independent MPEG-TS parser in the harness (`ts.go`): packet size, sync byte, continuity, adaptation field length, table CRC, contents, positions of tables, PCR and PES headers.",
"P39": "Streams of the writer with garbage, corrupt units, undeclared PIDs, lost or empty packets inserted at each place; the surviving units are compared, the callback counted. Not tested: duplicate packets (go-astits treats them as discontinuity). Undetectable: the loss of the last packet of a PID.",
"P40": "Program maps and first units laid out by the harness with symbolic descriptor contents; expected tracks computed independently. Unspecified and not asserted: registration id 0, several registrations together with a subtitling descriptor, an empty subtitling descriptor.",
"P41": "Each round-trip harness is performed twice with different symbolic values in the same program state; before and after, every input (through its full capacity) and every earlier result is compared with a deep copy, and the second run repeats all the assertions of the harness. A shared buffer, a retained slice or an in-place modification is a counterexample.",
"P42": "Oracle: an independent box reader in the harness; the expected records are computed from the fields that the harness encoded into the parameter sets, the sample tables are expanded as ISO 14496-12 prescribes. Destination errors are injected at a symbolic operation (from there on). Known finding: constraint flags of `hvcC`. Not claimed: `elst` contents (pinned by tests), `hvcC` numTemporalLayers/temporalIdNested (go-mp4 models the bits differently), dimensions above 65535, the high-profile extension of `avcC`.",
"P43": "Oracle: the harness lays out slices (picture order counts, reference picture sets, SPS reordering depth) of a stream from a decoding order and from display positions; the true DTS grid is known by construction, the first timestamp is symbolic. Frame intervals are concrete (several values), widths of the count are cases. Not claimed: H.264 patterns whose anchor is not decoded first or with a count increasing by 1 and B-frames (detection of the increment is a heuristic: `[4,1,2,3]` is refused), H.265 P frames without earlier references and intra frames with an empty reference set (refused by the code), variable frame rates.",
"P44": "Oracle: tables of the specifications in the harness; the value whose name is asked for is a symbolic byte. The text for values without a name is opaque to the engine and is not compared.",
}
